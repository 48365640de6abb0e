#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo statically."""
import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.front import Repo
from sa.report import Ctx, finish


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv else "quick"
    root = os.environ.get("SA_REPO", "/repo")
    t0 = time.time()
    repo = Repo(root, with_pyx=False)
    ctx = Ctx(pid, tier, repo)
    mod = importlib.import_module("sa.rules." + pid.lower())
    mod.run(ctx)
    return finish(ctx, t0)


if __name__ == "__main__":
    rc = [3]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            import traceback
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
