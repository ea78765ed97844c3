#!/usr/bin/env python3
"""Run property checks:  check.py C01[,C02...] [--tier quick|thorough]"""
import argparse
import importlib
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import core  # noqa: E402
from sa.index import AnalysisError  # noqa: E402
from sa.registry import CHECKS  # noqa: E402


class Timeout(BaseException):
    pass


def expire(*_):
    raise Timeout("time limit of the analysis")


LIMIT = (600, 850)


def one(pid, tier):
    modname, title = CHECKS[pid]
    c = None
    signal.signal(signal.SIGALRM, expire)
    signal.alarm(LIMIT[tier == "thorough"])
    try:
        mod = importlib.import_module("sa.checks." + modname)
        c = core.Check(pid, title)
        c.tier = tier
        expl = getattr(mod, pid)(c)
        return c.finish(tier=tier, explanation=expl or "", known=core.load_known())
    except AnalysisError as e:
        print(f"ERROR property={pid}: {e}")
        return 2
    except (Exception, Timeout) as e:
        # code the analysis cannot follow is undecided, not a violation
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc(file=sys.stdout)
        if c is None:
            print(f"ERROR property={pid}: {e!r}")
            return 3
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.undecided("analysis of the current source",
                    f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        return c.finish(tier=tier, explanation="analysis stopped early: " + repr(e)[:200],
                        known=core.load_known())
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pids = sorted(CHECKS) if a.pid == "all" else a.pid.split(",")
    return max(one(p, a.tier) for p in pids)


if __name__ == "__main__":
    sys.exit(main())
