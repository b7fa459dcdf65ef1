#!/usr/bin/env python3
"""
check.py --property ID --tier quick|thorough     decide a property (run with python3-vt)
check.py --replay FILE                           replay a recorded violation on the real code
"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VT = '/opt/veriftools/pyvenv/bin/python'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--replay-batch')
    args = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', *sys.argv])
    from symex import runner
    if args.replay_batch:
        out = runner.replay_main(args.replay_batch)
        print('RESULT ' + json.dumps(out))
        return 0
    if args.replay:
        doc = json.load(open(args.replay))
        out, err = runner.replay(doc['property'], doc['modules'], doc['runs'])
        print(json.dumps(out, indent=1) if out else err)
        if out and out[0]['status'] == 'fail':
            print(f"VIOLATION property={doc['property']} replay={os.path.abspath(args.replay)}")
            return 1
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return runner.run_property(args.property, args.tier, seed, args.only, args.workers, args.v)


sys.exit(main())
