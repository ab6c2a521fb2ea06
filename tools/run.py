#!/usr/bin/env python3
"""check.sh entry point: run.py <property> [--tier quick|thorough] [--seed n]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks  # noqa: E402
from framework import Check, Infra  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    c = Check(a.pid, tier, a.seed)
    rc = 3
    try:
        fn, level, rule = checks.CHECKS[a.pid]
        try:
            fn(c)
        except Infra as ex:
            print('INFRASTRUCTURE:', ex)
            if not c.violations:
                return 3
        c.finish(level, rule)
        rc = 1 if c.violations else 0
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        c.cleanup()
    return rc


if __name__ == '__main__':
    sys.exit(main())
