"""One worker process (PyPy): executes every n-th case of a property's workload families."""
import argparse
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, VERIF]
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--nworkers', type=int, default=1)
    ap.add_argument('--budget', type=float, default=600.0)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--index', type=int)
    args = ap.parse_args()

    import skcurve
    got = os.path.realpath(os.path.dirname(skcurve.__file__))
    assert got == os.path.realpath(os.path.join(REPO, 'skcurve')), got

    from vlib import core
    mod = importlib.import_module('checks.' + args.pid.lower())
    eng = core.Engine(mod, args.pid, args.tier, args.seed, args.scale)
    if args.only:
        fail = eng.run_case(args.only, args.index)
        if fail:
            print(fail['message'])
            print('witness:', fail.get('witness'))
            return 1
        print('case %s:%d held (%d comparisons)' % (args.only, args.index, sum(eng.events.values())))
        return 0
    eng.run(args.worker, args.nworkers, args.budget)
    with open(args.out + '.tmp', 'w') as f:
        json.dump(eng.result(), f, default=str)
    os.replace(args.out + '.tmp', args.out)
    return 0


if __name__ == '__main__':
    sys.exit(main())
