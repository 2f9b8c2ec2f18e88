#!/usr/bin/env python3
"""seedrun.py ID... : runs the property's quick check against a scratch copy with the planted bug (all with no ID)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for sid in sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded')):
    d = os.path.join(VERIF, 'seeded', sid)
    pid = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun-')
    try:
        copy = tmp + '/repo'
        shutil.copytree('/repo', copy, symlinks=True)
        r = subprocess.run(['git', '-C', copy, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            print(sid, 'PATCH FAILS', r.stderr[:200]); continue
        r = subprocess.run(['python3', VERIF + '/run.py', pid, '--tier', 'quick'], env=dict(os.environ, VERIF_REPO=copy, VERIF_SCRATCH_EVIDENCE='1'), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'violation' in l.lower()]
        print(sid, pid, r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED', r.stdout.strip().split('\n')[0][:220], flush=True)
    finally:
        shutil.rmtree(tmp)
