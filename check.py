#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its present source.

    python3 check.py C01          exit 0: held; 1: VIOLATION line; 2: the analysis could not be made
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    from program import AnalysisBroken
    from checks import common
    mod = importlib.import_module("checks.%s" % pid.lower())
    rep = common.Report(pid, tier, seed)
    budget = float(os.environ.get("VERIF_BUDGET") or 660)
    finish = lambda: rep.finish(HERE, time.time() - t0, getattr(mod, "ASSUMPTIONS", []), getattr(mod, "EXPLANATION", mod.__doc__ or ""))
    try:
        ctx = common.Ctx(tier, seed, rep, t0 + budget)
        LATE.append((t0 + budget + 60, ctx, rep, finish))
        mod.run(ctx, rep)
    except common.OutOfTime:
        rep.undecided("time", "the rest", "not analysed in the time allowed")
    except AnalysisBroken as e:
        if not set(rep.violations) - rep.listed:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        if not set(rep.violations) - rep.listed:
            print("ANALYSIS-BROKEN property=%s internal error" % pid)
            return 2
    if not sum(rep.ok_count.values()) and not set(rep.violations) - rep.listed:
        print("ANALYSIS-BROKEN property=%s nothing could be decided" % pid)
        return 2
    rep.functions |= ctx.functions()
    DONE.append(1)
    return finish()


LATE, DONE = [], []


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = []
    th = threading.Thread(target=lambda: code.append(main()))
    th.start()
    while th.is_alive():
        th.join(1)
        if LATE and not DONE and time.time() > LATE[0][0]:
            # something other than the interpreter takes too long: report what is known
            _, ctx, rep, finish = LATE[0]
            for pid in ctx.kids:
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
            rep.undecided("time", "the rest", "not analysed in the time allowed")
            code.append(finish())
            break
    sys.stdout.flush()
    os._exit(code[0] if code else 2)
