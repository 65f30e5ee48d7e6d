"""Command line entry: python -m mc.main <PROPERTY> [--replay FILE]."""
import argparse
import importlib
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    import ibl  # noqa: F401
    where = os.path.realpath(os.path.dirname(ibl.__file__))
    if where != os.path.realpath(os.path.join(REPO, "ibl")):
        print(f"ERROR: ibl imported from {where}")
        return 2
    from mc import core
    mod = importlib.import_module("checks." + args.property.lower())
    if args.replay:
        return core.replay(mod, args.property, args.replay)
    return core.run(mod, args.property, args.tier, args.jobs)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # an error of the machinery, not a verdict
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
