#!/usr/bin/env python3
"""Plants one bug in a scratch copy of /repo, confirms it and stores it under /verif/seeded/<id>.

    plant.py SPEC.py [ID ...]      SPEC.py: SEEDS = [dict(id, property, edits=[(file, old, new[, nth])], demo, needs, breaks)]

Confirms: the patch applies, only original lines of non-test sources change, the
package imports, every baseline test still passes, the demo exits 0 without and
non-zero with the patch; then runs the property's quick check against the copy.
"""
import json, os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run in the root of the repository; exit 0: behaves, non-zero: broken
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" HOME="$scratch" \\
    /opt/venv/bin/python "$here/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1')

def root():
    return subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--invert-grep', '--grep=^fix:', '-1'], text=True).strip()

def run_tests(copy, tmp):
    x = os.path.join(tmp, 'junit.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                   cwd=copy, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = os.path.join(tmp, 'out.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + x], stdout=subprocess.DEVNULL)
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['passed'] if isinstance(base, dict) and 'passed' in base else base.get('stable', base))
    got = set(json.load(open(out))['passed'])
    return sorted(want - got)

def plant(s, check=True, seed=1):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        for e in s['edits']:
            f = os.path.join(copy, 'skcurve', e[0])
            txt = open(f).read()
            n = e[3] if len(e) > 3 else None
            cnt = txt.count(e[1])
            if n is None:
                assert cnt == 1, (s['id'], cnt, e[1])
                txt = txt.replace(e[1], e[2])
            else:
                parts = txt.split(e[1])
                assert len(parts) > n + 1, (s['id'], cnt, e[1])
                txt = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
            open(f, 'w').write(txt)
        diff = subprocess.check_output(['git', '-C', copy, 'diff'], text=True)
        # the removed lines must be original
        orig = {}
        bad = []
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
                orig[cur] = set(subprocess.check_output(['git', '-C', '/repo', 'show', root() + ':' + cur], text=True).split('\n'))
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig[cur]:
                bad.append(l)
        if bad:
            return 'changes lines that are not original: %r' % bad
        if '-' not in [l[:1] for l in diff.split('\n') if not l.startswith('---')]:
            print('   note: adds lines only')
        failed = run_tests(copy, tmp)
        if failed:
            return 'tests catch it: %s' % failed[:3]
        d = os.path.join(tmp, 'demo')
        os.mkdir(d)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(s['demo'])
        ok = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        ko = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, capture_output=True, text=True)
        if ok.returncode:
            return 'demo fails on the unchanged tree: ' + ok.stdout[-500:] + ok.stderr[-800:]
        if not ko.returncode:
            return 'demo does not notice the bug'
        dest = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(dest, exist_ok=True)
        open(dest + '/patch.diff', 'w').write(diff)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(d, n), dest)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dest + '/meta.json', 'w'), indent=1)
        res = 'kept'
        if check:
            p = subprocess.run(['python3', os.path.join(VERIF, 'run.py'), s['property'], '--seed', str(seed)], cwd=VERIF,
                               env=dict(ENV, VERIF_REPO=copy), capture_output=True, text=True)
            caught = p.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in p.stdout
            fams = sorted({l.split()[1] for l in p.stdout.split('\n') if l.startswith('--- ')})
            res += ' CAUGHT %s' % fams if caught else ' MISSED rc=%d %s' % (p.returncode, p.stdout[-400:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        try:
            print(s['id'], s['property'], plant(s), flush=True)
        except AssertionError as e:
            print(s['id'], 'SPEC', e, flush=True)
