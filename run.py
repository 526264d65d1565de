#!/usr/bin/env python3
"""
Run a check:    run.py C01            (VERIF_SEED, VERIF_TIER from the environment)
Replay:         run.py replay FILE
Determinism:    run.py selftest C01   (same seeds at other worker counts and orders, event logs compared)
"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

CHECKS = {}
for _name in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))):
    if _name[0] == 'c' and _name[1:3].isdigit() and _name.endswith('.py'):
        CHECKS[_name.split('_')[0].upper().split('.')[0]] = _name[:-3]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('what')
    parser.add_argument('arg', nargs='?')
    parser.add_argument('--tasks', type=int)
    parser.add_argument('--cap', type=float)
    parser.add_argument('--workers', type=int)
    args = parser.parse_args()
    from sim import engine
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if args.what == 'replay':
        return engine.replay(args.arg)
    if args.what == 'selftest':
        return selftest(engine, CHECKS[args.arg], seed, args)
    return engine.Engine(CHECKS[args.what], tier, seed, args.workers, args.tasks, args.cap).main()


def selftest(engine, name, seed, args):
    """Same tasks, several worker counts: the event logs must be identical."""
    logs = []
    for workers in (8, 3, 5):
        eng = engine.Engine(name, 'quick', seed, workers, args.tasks or 60, args.cap or 600)
        eng.evidence = lambda *a: None
        status = eng.main()
        logs.append((status, eng.logs))
    bad = 0
    for i in sorted(logs[0][1]):
        values = {repr(log.get(i)) for _, log in logs}
        if len(values) != 1:
            bad += 1
            print('task {} diverges: {}'.format(i, values))
    print('{} tasks compared over 3 runs, {} diverged, statuses {}'.format(
        len(logs[0][1]), bad, [s for s, _ in logs]))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
