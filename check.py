#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]   exit 0 held / 1 violation / 3 analysis broken"""
import argparse
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.absint import Budget, Interp  # noqa: E402
from sa.base import Report  # noqa: E402
from sa.prog import AnalysisBroken, Program  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    Interp.deadline = time.monotonic() + float(os.environ.get("VERIF_DEADLINE", "600" if a.tier == "quick" else "7200"))
    try:
        prog = Program()
        rep = Report(a.pid, a.tier, prog)
        mod = importlib.import_module(f"checks.{a.pid.lower()}")
        try:
            mod.run(prog, rep)
        except Budget:
            if not Interp.expired:
                raise AnalysisBroken("path budget exceeded outside an obligation")
        except (AnalysisBroken, KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:  # a construct the analysis cannot digest: what is left is undecided, never a verdict
            traceback.print_exc()
            rep.undecide("internal", a.pid, f"the analysis stopped: {type(e).__name__}: {e}")
            rep.broken.clear()
            if not rep.obligations:
                raise AnalysisBroken(f"{type(e).__name__}: {e}")
        if Interp.expired:
            rep.undecide("deadline", a.pid, "the time of the run is used up; what is left is undecided")
            rep.broken.clear()
        return rep.finish(seed)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={a.pid} {e}")
        return 3


if __name__ == "__main__":
    sys.exit(main())
