#!/usr/bin/env python3
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
check.py --self-test            same seeds, different processes and hash seeds: same event logs
check.py --replay FILE          run one recorded execution again"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import driver


def main(argv):
    if argv[:1] == ['--replay']:
        out = driver.replay(argv[1])
        for item in out.get('log', []):
            print('  ', json.dumps(item, ensure_ascii=False))
        print(out['status'], out['code'], out['message'])
        if out.get('detail'):
            print(out['detail'])
        if out['status'] == 'violation':
            with open(argv[1], encoding='utf-8') as fpt:
                prop = json.load(fpt)['property']
            print('VIOLATION property=%s replay=%s' % (prop, argv[1]))
            return 1
        return 0 if out['status'] == 'ok' else 2
    if argv[:1] == ['--self-test']:
        props = ['C%02d' % i for i in list(range(1, 14)) + [19, 20, 21, 22]]
        if len(argv) > 1:       # --self-test SEEDS BUDGET: a larger sample
            return 1 if driver.self_test(props, range(1, int(argv[1]) + 1), int(argv[2]), (1, 77, 4242)) else 0
        return 1 if driver.self_test(props) else 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    jobs = None
    rest = argv[1:]
    while rest:
        if rest[0] == '--tier':
            tier = rest[1]
        elif rest[0] == '--seed':
            seed = int(rest[1])
        elif rest[0] == '--jobs':
            jobs = int(rest[1])
        rest = rest[2:]
    return driver.coordinate(prop, tier, seed, jobs)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
