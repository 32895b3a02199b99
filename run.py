"""Command line: python3 run.py Cxx [--repo DIR] decides one property of /repo."""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pgsa.analysis import Program2  # noqa: E402
from pgsa.model import AnalysisBroken  # noqa: E402
from pgsa.report import Report  # noqa: E402


def main(argv):
    repo = "/repo"
    if "--repo" in argv:
        i = argv.index("--repo")
        repo = argv[i + 1]
        del argv[i:i + 2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        argv.remove("--thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    worst = 0
    for prop in argv:
        mod = importlib.import_module(f"pgsa.checks.{prop.lower()}")
        rep = Report(prop, tier, seed)
        try:
            P = Program2(repo)
            P.report = rep
            mod.check(P, rep)
            rc = rep.finish()
        except AnalysisBroken as e:
            print(f"ANALYSIS-BROKEN property={prop} {e}")
            rc = 2
        except Exception:
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={prop} internal error")
            rc = 2
        worst = max(worst, rc) if rc != 1 else (1 if worst != 2 else 2)
    return worst


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
