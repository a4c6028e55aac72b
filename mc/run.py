"""Entry point: python -m mc.run <property> [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

from mc import clock     # before anything reads the time


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "--only":          # development: substring of the task names to run
            os.environ["MC_ONLY"] = rest.pop(0)
    from mc import core
    return core.main(pid, tier, replay)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
