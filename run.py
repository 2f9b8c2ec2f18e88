#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's current working tree.

    python3 run.py C03                       quick or thorough tier (VERIF_TIER), seed VERIF_SEED
    python3 run.py C03 --replay FILE         re-execute one recorded violating case
    python3 run.py C03 --family F --index I  re-execute one case
    python3 run.py --list

Exit 0: property held on everything explored.  Exit 1: violation, with a
``VIOLATION property=<id> replay=<path>`` line.  Exit 2: inconclusive (the
deciding monitors were never reached, or a worker died without a verdict).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
WATCHDOG = {'quick': 780.0, 'thorough': 860.0}     # wall-clock; firing is never a violation


def child_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'), HOME=scratch,
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               VERIF_REPO=REPO, TMPDIR=scratch)
    return env


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                res.append(line[len('finding: property=%s ' % pid):])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--index', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.list:
        for name in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
            if name.startswith('c') and name.endswith('.py'):
                print(name[:-3].upper())
        return 0
    pid = args.property
    tier = args.tier if args.tier in WATCHDOG else 'quick'
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return run(pid, tier, args, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, tier, args, scratch):
    t0 = time.time()
    env = child_env(scratch)
    base = [PYPY, '-B', os.path.join(VERIF, 'vlib', 'worker.py'), pid, '--tier', tier, '--seed', str(args.seed),
            '--scale', str(args.scale)]
    if args.replay or args.family:
        if args.replay:
            r = json.load(open(args.replay))
            fam, idx, seed, t = r['family'], r['index'], r['seed'], r['tier']
        else:
            fam, idx, seed, t = args.family, args.index or 0, args.seed, tier
        cmd = [PYPY, '-B', os.path.join(VERIF, 'vlib', 'worker.py'), pid, '--tier', t, '--seed', str(seed),
               '--only', fam, '--index', str(idx)]
        p = subprocess.run(cmd, env=env, cwd=scratch)
        if p.returncode == 1:
            print('VIOLATION property=%s replay=%s' % (pid, args.replay or '%s:%d' % (fam, idx)))
        return p.returncode

    nw = args.workers or min(8, os.cpu_count() or 8)
    budget = WATCHDOG[tier]
    procs = []
    for w in range(nw):
        out = os.path.join(scratch, 'w%d.json' % w)
        log = open(os.path.join(scratch, 'w%d.log' % w), 'w')
        cmd = base + ['--worker', str(w), '--nworkers', str(nw), '--out', out, '--budget', str(budget - 60)]
        procs.append((subprocess.Popen(cmd, env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT), out, log.name))
    deadline = t0 + budget
    died = []
    for p, out, log in procs:
        try:
            p.wait(max(1.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            died.append('watchdog: worker stopped after %.0f s' % (time.time() - t0))
            continue
        if p.returncode != 0:
            died.append('worker exit %s: %s' % (p.returncode, open(log).read()[-1500:]))

    cases, subcases = 0, 0
    nontriv = set()
    events, fams, samples, fails, meta, partial = {}, {}, [], [], {}, 0
    for p, out, log in procs:
        if not os.path.exists(out):
            continue
        d = json.load(open(out))
        cases += d['cases']
        subcases += d['subcases']
        nontriv.update(d['sigs'])
        partial += d['skipped']
        for k, v in d['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in d['families'].items():
            fams[k] = fams.get(k, 0) + v
        samples += d['samples']
        fails += d['failures']
        meta = d['meta'] or meta
    # a family that ran but whose oracle was never reached decides nothing
    silent = [f for f, n in sorted(fams.items()) if n and not events.get('oracle:' + f)]
    inconclusive = list(died)
    if not cases:
        inconclusive.append('no case was executed')
    if silent:
        inconclusive.append('the oracle was never reached in: ' + ', '.join(silent))
    coverage = {
        'evaluations': cases + subcases,
        'cases': cases,
        'distinct_nontrivial': len(nontriv),
        'rule': meta.get('rule', ''),
        'samples': sorted(samples, key=lambda s: json.dumps(s, sort_keys=True, default=str))[:12],
        'oracle_comparisons': sum(v for k, v in events.items() if k.startswith('oracle:')),
        'events_observed': {k: v for k, v in sorted(events.items())},
        'cases_per_family': dict(sorted(fams.items())),
        'cases_skipped_by_time_cap': partial,
        'workers': nw,
        'inconclusive': inconclusive,
    }
    ev = {'property': pid, 'tier': tier, 'seed': args.seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 3), 'violations': len(fails)}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, pid + '.json'))

    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s tier=%s seed=%d cases=%d distinct=%d comparisons=%d skipped=%d wall=%.1fs' % (
        pid, tier, args.seed, cases, len(nontriv), coverage['oracle_comparisons'], partial, time.time() - t0))
    if args.v:
        print(json.dumps(coverage['events_observed'], indent=1))
    if fails:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        fails.sort(key=lambda f: (f['family'], f['index']))
        seen = {}
        for f in fails:
            seen.setdefault(f['family'], []).append(f)
        for fam, fl in sorted(seen.items()):
            f = fl[0]
            path = os.path.join(rdir, '%s-%s-%d-%s-%d.json' % (pid, fam, f['index'], tier, args.seed))
            json.dump(f, open(path, 'w'), indent=1, default=str)
            print('--- %s/%s: %d violating cases; first: case %d' % (pid, fam, len(fl), f['index']))
            print(f['message'][:1500])
            if f.get('witness'):
                print('witness: ' + str(f['witness'])[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if inconclusive:
        for m in inconclusive:
            print('INCONCLUSIVE property=%s %s' % (pid, m))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
