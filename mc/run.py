#!/usr/bin/env python3
"""usage: run.py PROPERTY [--space REGEX] [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build  # noqa: E402
import core   # noqa: E402


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--space" in a:
        only = a[a.index("--space") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("props." + pid)
    return core.explore(pid, mod.spaces(tier), tier, getattr(mod, "LEVEL", "model_checking"), mod.RULE,
                        mod.ASSUMPTIONS, only)


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("cannot build selint from the working tree: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
