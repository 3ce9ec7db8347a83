"""Runs checks against planted bugs: catch.py [ID...] [--all]; by default only the check of the bug's own property.

Every bug is applied to a copy of /repo (VERIF_REPO), never to /repo itself.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
where = '/tmp/seeds_other' if '--other' in sys.argv else os.path.join(VERIF, 'seeded')
every = '--all' in sys.argv
ids = args or sorted(os.listdir(where))
for i in ids:
    d = os.path.join(where, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=w + '/repo', capture_output=True, text=True)
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stderr, flush=True)
            continue
        checks = [f'C{n:02d}' for n in range(1, 34)] if every else [meta['property']]
        res = []
        for c in checks:
            t = time.time()
            r = subprocess.run(['bash', 'check.sh', c], cwd=VERIF, env=dict(os.environ, VERIF_REPO=w + '/repo'), capture_output=True, text=True)
            if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                msg = [x for x in r.stdout.splitlines() if x.startswith('  ')][:1]
                res.append(f'{c} CAUGHT ({time.time() - t:.0f}s){msg[0][:160] if not every and msg else ""}')
            elif r.returncode:
                res.append(f'{c} status {r.returncode} {r.stderr[-300:]}')
            elif not every:
                res.append(f'{c} MISSED ({time.time() - t:.0f}s)')
        print(i, '; '.join(res) or 'MISSED', flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
