#!/usr/bin/env python3
"""usage: check.py <PROPERTY-ID>   (static analysis of /repo's current source)"""
import warnings; warnings.filterwarnings("ignore", category=SyntaxWarning)
import importlib
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
threading.stack_size(768 * 1024 * 1024)
RC = [2]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("FSA_ROOT", "/repo")
    from fsa.program import Program
    from fsa.report import Ctx, finish

    try:
        P = Program(root)
        if P.syntax_errors:
            print("source does not parse:", P.syntax_errors)
            RC[0] = 2
            return
        mod = importlib.import_module("fsa.rules." + pid.lower())
        ctx = Ctx(pid, P, tier)
        mod.run(ctx)
        RC[0] = finish(ctx, mod.EXPLANATION, mod.ASSUMPTIONS, t0, seed)
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}")
        RC[0] = 3


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(RC[0])
