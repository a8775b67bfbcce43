import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
# Hypothesis is installed for the same Python version in another environment; it comes last so that
# numpy, scipy etc. are those of the library's own environment.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def main(argv):
    try:
        import lie_nn

        here = os.path.realpath(lie_nn.__file__)
    except Exception:
        traceback.print_exc()
        print("ERROR: lie_nn cannot be imported")
        return 2
    if not here.startswith("/repo/"):
        print(f"ERROR: lie_nn comes from {here}, not from /repo")
        return 2
    from vlib import driver

    if argv[0] == "--selftest":
        import hypothesis  # noqa: F401

        for i in range(1, 100):
            if os.path.exists(os.path.join(HERE, "props", f"p{i:02d}.py")):
                load(f"P{i:02d}").components("quick")
        print("selftest: ok")
        return 0
    if argv[0] == "--replay":
        return driver.replay(argv[1], load)
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = driver.run_property(pid, load(pid), tier, seed)
    if rc == 0:
        for line in known(pid):
            print(line)
        print(f"{pid}: held on everything explored ({tier}, seed {seed})")
    return rc


def known(pid):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"KNOWN-FINDING: property={pid} "):
                out.append(line)
    return out


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
