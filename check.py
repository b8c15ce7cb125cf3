#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] | --replay FILE"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--replay')
    a = ap.parse_args()
    from symx import runner
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        cfog = None
        import importlib
        h = importlib.import_module('props.' + d['harness'])
        mem = getattr(h, 'MEM', False)
        if getattr(h, 'NEEDS_CFOG', False):
            cfog, err = runner.build_cfog(mem)
        r = runner.replay(d['harness'], [{'case': d['case'], 'values': d['values']}], cfog, mem=mem)
        if cfog:
            import shutil
            shutil.rmtree(cfog, ignore_errors=True)
        print(json.dumps(r[0], indent=1))
        return 1 if r[0]['status'] == 'violation' else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return runner.main(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed,
                       budget=a.budget, jobs=a.jobs, verbose=a.verbose, only=a.only)


if __name__ == '__main__':
    sys.exit(main())
