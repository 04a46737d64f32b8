"""Driver: python check.py <property id>.  Exit 0 held, 1 violated, 2 machinery error."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402


def from_repo(exc):
    tb = exc.__traceback__
    frames = []
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        frames.append((f, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    hits = [f for f in frames if os.path.realpath(f[0]).startswith(
        os.path.realpath(vf.REPO) + os.sep)]
    if isinstance(exc, SyntaxError) and (exc.filename or "").startswith(vf.REPO):
        hits.append((exc.filename, exc.lineno, "<module>"))
    if isinstance(exc, ImportError) and "nonlinear_avoidance" in str(exc):
        hits.append((str(getattr(exc, "path", "")), 0, str(exc)))
    if isinstance(exc, AttributeError) and not str(exc.name).startswith("_"):
        # a public value which the code under test should have provided
        owner = exc.obj if isinstance(exc.obj, type(sys)) else type(exc.obj)
        name = owner.__name__ if owner is exc.obj else owner.__module__
        if name.startswith("nonlinear_avoidance"):
            hits.append((name, 0, exc.name))
    return hits


def main():
    pid = sys.argv[1]
    vf.prepare_python()
    chk = vf.Check(pid)
    mods = [m for m in sorted(os.listdir(os.path.join(os.path.dirname(
        os.path.abspath(__file__)), "props"))) if m.startswith(pid.lower() + "_")]
    if len(mods) != 1:
        print(f"no check module for {pid}")
        return 2
    mod = importlib.import_module("props." + mods[0][:-3])
    parts = mod.PARTS
    only = os.environ.get("VERIF_PART")
    for part in parts:
        if only and part.__name__ != only:
            continue
        try:
            part(chk)
        except vf.TlcError as exc:
            print(f"machinery error in {part.__name__}: {exc}")
            return 2
        except Exception as exc:  # noqa: BLE001
            hits = from_repo(exc)
            if not hits:
                traceback.print_exc()
                return 2
            name = os.path.basename(hits[-1][0])
            chk.violation(
                f"{part.__name__}/unexpected-{type(exc).__name__}/{name}",
                f"the code under test failed where the specification expects a result: "
                f"{type(exc).__name__}: {exc} at {hits[-1]}",
                traceback.format_exc())
    return chk.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
