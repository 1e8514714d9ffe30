#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import framework

WHERE = {"D01": "db", "D02": "db", "D03": "db", "D04": "db", "D05": "db", "D07": "db", "D08": "db", "D09": "db", "D14": "rec", "D16": "stg", "D11": "suminfo", "D10": "idt", "D12": "merge", "D13": "transform", "D06": "crash", "D15": "text", "T01": "tool", "T02": "tool", "T03": "tool", "T04": "extract", "W01": "pre", "W03": "seq", "W04": "ids", "W05": "heat", "W02": "wix", "W06": "wix", "W07": "ui"}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = framework.Check(prop, tier, seed)
    try:
        importlib.import_module(WHERE[prop]).run(ck)
    except Exception:
        traceback.print_exc()
        if not ck.violations:
            sys.exit(2)
    sys.exit(ck.finish())


main()
