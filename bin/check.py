#!/usr/bin/env python3
"""check.py <property> <quick|thorough>"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import *

MODULES = {}
for i in range(1, 8):
    MODULES["C%02d" % i] = "analysis"
MODULES.update({"C08": "printing", "C09": "optimizing", "C10": "machine", "C11": "machine", "C12": "machine", "C13": "machine",
                "C25": "sarif", "C26": "formatting", "C27": "building", "C28": "server", "C29": "tools"})
for i in range(14, 22):
    MODULES["C%02d" % i] = "server"
for i in range(22, 25):
    MODULES["C%02d" % i] = "adapter"


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    ctx = Ctx(prop, tier)
    try:
        __import__(MODULES[prop]).check(ctx)
        return ctx.finish()
    except Broken as e:
        print("%s: no verdict: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()


sys.exit(main())
