import importlib
import os
import sys
import traceback


def main(argv):
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ids = [a for a in argv if not a.startswith("-")]
    rc = 0
    sys.setrecursionlimit(20000)
    for pid in ids:
        from .model import AnalysisBroken
        from .report import Report

        rep = Report(pid, tier)
        try:
            mod = importlib.import_module(f".checks.{pid.lower()}", __package__)
            r = mod.run(rep)
        except AnalysisBroken as ex:
            print(f"ANALYSIS-BROKEN property={pid}: {ex}")
            r = 2
        except Exception:
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={pid}: internal error of the checker")
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
