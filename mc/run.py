"""run.py PID [quick|thorough] [--replay FILE]"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import engine  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        sys.exit(engine.replay(pid, sys.argv[sys.argv.index("--replay") + 1]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(engine.run(pid, tier))
