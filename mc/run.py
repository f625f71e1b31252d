"""python -m mc.run ID TIER [--replay FILE]"""
import importlib
import sys

from mc import core


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[4] if len(sys.argv) > 4 and sys.argv[3] == "--replay" else None
    mod = importlib.import_module("mc.props." + pid.lower())
    sys.exit(core.main(mod, tier, replay))


if __name__ == "__main__":
    main()
