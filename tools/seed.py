"""Planting bugs: checks a candidate in a scratch copy and files it under /verif/seeded.

usage: seed.py FILE.py [ID...]      FILE defines SEEDS = [dict(id, prop, file, old, new, demo, needs, breaks), ...]
old/new may be lists for several places.  A candidate is kept when the stable tests pass with it and the demonstration fails with it and passes without it; those that change other lines than ones of the original
repository go to /tmp/seeds_other.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '#!/bin/bash\n# runs the demonstration against the tree in the current directory\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = '''import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
from oelint_parser.cls_stash import Stash
from oelint_parser.cls_item import *
T = tempfile.mkdtemp()


def w(name, text):
    p = os.path.join(T, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as o:
        o.write(text)
    return p


def eq(got, want):
    if got != want:
        print('got', repr(got), 'expected', repr(want))
        raise SystemExit(1)


try:
'''
POST = '''finally:
    shutil.rmtree(T, ignore_errors=True)
'''


def demo_text(body):
    return PRE + ''.join('    ' + x + '\n' if x else '\n' for x in body.strip('\n').split('\n')) + POST


def run(cmd, cwd, timeout=300):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def one(s):
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        tree = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        d = os.path.join(w, 'demo')
        os.mkdir(d)
        with open(os.path.join(d, 'demo.sh'), 'w') as o:
            o.write(DEMO_SH)
        with open(os.path.join(d, 'demo.py'), 'w') as o:
            o.write(demo_text(s['demo']))
        r = run(['bash', os.path.join(d, 'demo.sh')], tree)
        if r.returncode:
            return s['id'], 'DEMO FAILS ON THE UNCHANGED TREE: ' + (r.stdout + r.stderr)[-600:]
        olds, news = s['old'], s['new']
        files = s['file']
        if isinstance(olds, str):
            olds, news = [olds], [news]
        if isinstance(files, str):
            files = [files] * len(olds)
        for f, a, b in zip(files, olds, news):
            p = os.path.join(tree, 'oelint_parser', f)
            t = open(p).read()
            if t.count(a) != 1:
                return s['id'], f'TEXT FOUND {t.count(a)} TIMES: {a!r}'
            open(p, 'w').write(t.replace(a, b))
        diff = run(['git', 'diff'], tree).stdout
        # removed lines must be original ones for a planted bug that counts
        other = None
        for f in set(files):
            hunks = run(['git', 'diff', '-U0', '--', 'oelint_parser/' + f], tree).stdout
            nrem = 0
            for l in hunks.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    nrem += cnt
                    if cnt:
                        bl = run(['git', 'blame', '-s', '-l', '-L', f'{start},+{cnt}', 'HEAD', '--', 'oelint_parser/' + f], tree).stdout
                        for x in bl.splitlines():
                            if not x.lstrip('^').startswith(BASE[:39]):
                                other = x[40:]
            if not nrem:
                other = other or "nothing removed"
        r = run(['bash', os.path.join(d, 'demo.sh')], tree)
        if not r.returncode:
            return s['id'], 'DEMO PASSES WITH THE BUG'
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        x = os.path.join(w, 'junit.xml')
        run([PY, '-m', 'pytest', '-q', '-o', 'addopts=', '--forked', '-p', 'no:cacheprovider', '--timeout=300',
             '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], tree, 900)
        bad = []
        for tc in ET.parse(x).iter('testcase'):
            if any(c.tag in ('failure', 'error') for c in tc):
                bad.append(tc.get('classname') + '.' + tc.get('name'))
        if bad:
            return s['id'], f'TESTS FAIL: {len(bad)} {bad[:3]}'
        t = os.path.join('/tmp/seeds_other' if other else os.path.join(VERIF, 'seeded'), s['id'])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        with open(os.path.join(t, 'patch.diff'), 'w') as o:
            o.write(diff)
        with open(os.path.join(t, 'meta.json'), 'w') as o:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, o, indent=1)
            o.write('\n')
        return s['id'], f'kept ({msg})' + (f' ELSEWHERE, changes {other!r}' if other else '')
    except subprocess.TimeoutExpired:
        return s['id'], 'TIMEOUT'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, todo):
            print(i, r, flush=True)


if __name__ == '__main__':
    main()
