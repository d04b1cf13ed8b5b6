#!/opt/venv/bin/python
"""Entry point: run.py <ID> [--replay FILE] [--part NAME] [--scale X]."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.dont_write_bytecode == 0:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", *sys.argv])
REPO = os.environ.get("RV_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(REPO, "src")]


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    import diwire

    where = os.path.realpath(diwire.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    from rv import harness

    mod = importlib.import_module(f"rv.checks.{a.id.lower()}")
    return harness.run_check(mod, replay=a.replay, only=a.part, scale=a.scale)


if __name__ == "__main__":
    sys.exit(main())
