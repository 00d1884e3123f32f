"""run_check.py PROPERTY | --replay FILE | --child"""
import json
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True

from simpy import runner  # noqa: E402


def main():
    if sys.argv[1] == "--child":
        runner.child_main()
    if sys.argv[1] == "--replay":
        return runner.replay_main(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    specs = json.loads((HERE / "specs.json").read_text())
    return runner.run_property(specs[prop], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
