"""run.py PROPERTY [quick|thorough] [--replay FILE]   (see DESIGN.md)

The outer process prepares a scratch directory (HOME, TMPDIR) and a fixed environment, runs the check
in a child, removes the scratch directory, and passes the verdict on.
"""
import importlib
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def outer(argv):
    scratch = tempfile.mkdtemp(prefix="pthmc-")
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(HOME=scratch + "/home", TMPDIR=scratch + "/tmp", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               CUDA_VISIBLE_DEVICES="", TZ="UTC", MC_INNER="1",
               PYTHONPATH=":".join([HERE, HERE + "/shim", HERE + "/stubs",
                                    env.get("MC_REPO", "/repo")]))
    os.makedirs(env["HOME"])
    os.makedirs(env["TMPDIR"])
    p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), *argv], env=env,
                         cwd=scratch, start_new_session=True)
    try:
        rc = p.wait()
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else 2


def inner(argv):
    sys.path.insert(0, HERE)
    prop = argv[0]
    if prop == "setup":
        from mc import boot
        boot.boot()
        print("ready")
        return 0
    tier = "thorough" if "thorough" in argv[1:] else "quick"
    names = [f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))
             if f.lower().startswith(prop.lower() + "_") and f.endswith(".py")]
    assert len(names) == 1, names
    from mc import boot, core
    mod_name = "checks." + names[0]
    src = open(os.path.join(HERE, "checks", names[0] + ".py")).read()
    try:
        boot.boot(patch_dates="PATCH_DATES = True" in src)
    except Exception as e:
        if not in_code_under_test(e):
            raise
        return broken_import(prop, e)
    mod = importlib.import_module(mod_name)
    ctx = core.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    if "--replay" in argv:
        import json
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        print(rec["key"], rec["message"])
        print(mod.replay(rec["case"]))
        return 0
    try:
        mod.run(ctx)
    except Exception as e:
        # an exception out of the code under test is a verdict; one of the harness itself is an error
        if not in_code_under_test(e):
            raise
        ctx.problem("exception:" + core.describe_exc(e)[:120], core.describe_exc(e), "in the check's own process")
    return core.finish(ctx, mod.META)


def in_code_under_test(e):
    import traceback
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.realpath(os.environ.get("MC_REPO", "/repo")) + "/pythagoras/"
    return any(os.path.realpath(f.filename).startswith(root) for f in frames)


def broken_import(prop, e):
    """The code under test cannot even be imported."""
    import traceback
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-import.txt")
    with open(path, "w") as f:
        f.write("import pythagoras\n\n" + "".join(traceback.format_exception(e)))
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  import: {type(e).__name__}: {e}")
    return 1


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    if os.environ.get("MC_INNER"):
        try:
            code = inner(sys.argv[1:])
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 2
        sys.stdout.flush()
        os._exit(code)
    sys.exit(outer(sys.argv[1:]))
