"""Mutation triage: which small changes of the library pass its tests, and which checks notice them.

usage: mutate.py OUT.jsonl [FILE...] [--every N] [--offset K]
Enumerates small edits (statement removed, comparison or connective swapped, constant changed, element dropped, condition
forced, quantifier of a pattern changed), keeps those that pass the stable tests and runs the checks over a shuffled part of
their cases (a few seconds each) until one reports a violation.  What is left is looked at by hand, with full runs.
This is a tool to find gaps in the checks; no registered check uses it.
"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ORDER = [3, 14, 4, 19, 22, 15, 7, 11, 13, 10, 9, 2, 25, 17, 18, 20, 21, 23, 24, 27, 28, 5, 6, 8, 12, 1, 26, 16, 30, 29]


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def sub(n, text, what):
        a, b = pos(n)
        yield (n.lineno, what, (raw[:a] + text.encode() + raw[b:]).decode())
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    seg = lambda n: ast.get_source_segment(src, n)
    anns = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            x = getattr(n, f, None)
            if x is not None:
                anns.update(ast.walk(x))
    for n in ast.walk(tree):
        if n in docs or n in anns:
            continue
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) or isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            if isinstance(n, ast.Assign) and n.col_offset == 0:
                pass
            else:
                yield from sub(n, 'pass', 'removed: ' + seg(n)[:80])
        if isinstance(n, ast.AugAssign):
            yield from sub(n, seg(n.target) + ' = ' + seg(n.value), 'plain assignment: ' + seg(n)[:80])
        if isinstance(n, (ast.If, ast.IfExp)) and not isinstance(n.test, ast.Constant):
            yield from sub(n.test, 'True', 'condition true: ' + seg(n.test)[:80])
            yield from sub(n.test, 'False', 'condition false: ' + seg(n.test)[:80])
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                yield from sub(t, 'True', 'filter true: ' + seg(t)[:80])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is'}
            op = sw[type(n.ops[0])]
            yield from sub(n, f'{seg(n.left)} {op} {seg(n.comparators[0])}', 'comparison: ' + seg(n)[:80])
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield from sub(n, '(' + o.join(f'({seg(v)})' for v in n.values) + ')', 'connective: ' + seg(n)[:80])
            for i in range(len(n.values)):
                rest = [f'({seg(v)})' for j, v in enumerate(n.values) if j != i]
                yield from sub(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'operand {i} dropped: ' + seg(n)[:80])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield from sub(n, f'({seg(n.operand)})', 'not dropped: ' + seg(n)[:80])
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            new = {True: 'False', False: 'True'}.get(v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else None
            if new:
                yield from sub(n, new, f'constant {v}')
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                b = {'List': '[]', 'Tuple': '()', 'Set': '{}'}[type(n).__name__]
                rest = [seg(x) for j, x in enumerate(n.elts) if j != i]
                yield from sub(n, b[0] + ', '.join(rest) + (',' if len(rest) == 1 and b == '()' else '') + b[1], f'element {i} dropped: ' + seg(n)[:80])
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f == 'sorted' and not n.keywords:
                yield from sub(n, f'list({seg(n.args[0])})', 'unsorted: ' + seg(n)[:80])
            if f.endswith(('.strip', '.lstrip', '.rstrip')):
                yield from sub(n, seg(n.func.value), 'not stripped: ' + seg(n)[:80])
            if f.endswith('.split') and n.args and len(n.args) == 1 and isinstance(n.func, ast.Attribute) and f != 'RegexRpl.split':
                yield from sub(n, f'{f}({seg(n.args[0])}, 1)', 'split once: ' + seg(n)[:80])
            if f in ('any', 'all'):
                yield from sub(n.func, 'all' if f == 'any' else 'any', 'any/all: ' + seg(n)[:80])
            for k in n.keywords:
                if k.arg:
                    t = seg(n)
                    s = seg(k)
                    if t.count(', ' + s) == 1:
                        yield from sub(n, t.replace(', ' + s, ''), f'argument {s[:40]} dropped: ' + t[:60])
            if f == 'regex.compile' and isinstance(n.args[0], (ast.Constant, ast.JoinedStr)):
                t = seg(n.args[0])
                for m in re.finditer(r'(?<=[\w\])}])(\*\?|\+\?|\*|\+|\?)(?!\w)', t):
                    for r in {'*': ['+', '?'], '+': ['*', ''], '?': [''], '*?': ['*', '+?'], '+?': ['+', '*?']}[m.group(1)]:
                        yield from sub(n.args[0], t[:m.start()] + r + t[m.end():], f'quantifier {m.group(1)} to {r or "none"} at {m.start()}: {t[max(0, m.start() - 25):m.end() + 5]}')
                for m in re.finditer(r'\[[^\]]{2,}\]', t):
                    body = m.group(0)[1:-1]
                    parts = re.findall(r'\\x..|\\.|\w-\w|.', body)
                    if len(parts) > 1:
                        for i, p in enumerate(parts):
                            if p != '^':
                                yield from sub(n.args[0], t[:m.start()] + '[' + ''.join(parts[:i] + parts[i + 1:]) + ']' + t[m.end():], f'{p} dropped from {m.group(0)}')
                for m in re.finditer(r'\^|\$(?!\\?\{)|\\b', t):
                    yield from sub(n.args[0], t[:m.start()] + t[m.end():], f'{m.group(0)} dropped at {m.start()} from {t[:50]}')


def run(cmd, cwd, timeout, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {})))


def one(job):
    f, line, what, text = job
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
    res = {'file': f, 'line': line, 'what': what}
    try:
        tree = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        with open(os.path.join(tree, 'oelint_parser', f), 'w') as o:
            o.write(text)
        x = os.path.join(w, 'junit.xml')
        try:
            r = run([PY, '-m', 'pytest', '-q', '-x', '-o', 'addopts=', '--forked', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], tree, 300)
        except subprocess.TimeoutExpired:
            return {**res, 'status': 'tests hang'}
        if r.returncode:
            return {**res, 'status': 'tests'}
        for c in ORDER:
            try:
                r = run([PY, '-B', os.path.join(VERIF, 'tools', 'triage.py'), f'C{c:02d}', w], VERIF, 240, {'VERIF_REPO': tree, 'VERIF_JOBS': '1', 'VERIF_BUDGET': '2', 'PYTHONHASHSEED': '1'})
            except subprocess.TimeoutExpired:
                return {**res, 'status': f'C{c:02d} hang'}
            if r.returncode:
                return {**res, 'status': f'C{c:02d}', 'rc': r.returncode, 'msg': (r.stdout + r.stderr)[-300:]}
        d = run(['git', 'diff'], tree, 60).stdout
        return {**res, 'status': 'SURVIVED', 'diff': d}
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = sys.argv[1:]
    every = int(args[args.index('--every') + 1]) if '--every' in args else 1
    offset = int(args[args.index('--offset') + 1]) if '--offset' in args else 0
    files = [a for a in args[1:] if a.endswith('.py')] or ['cls_stash.py', 'parser.py', 'cls_item.py', 'inlinerep.py', 'constants.py', 'rpl_regex.py']
    jobs = []
    for f in files:
        src = open(os.path.join('/repo/oelint_parser', f)).read()
        seen = {src}
        for line, what, text in mutants(src):
            if text in seen:
                continue
            seen.add(text)
            try:
                compile(text, f, 'exec')
            except SyntaxError:
                continue
            jobs.append((f, line, what, text))
    jobs = jobs[offset::every]
    print(len(jobs), 'mutants', flush=True)
    if '--count' in args:
        return
    done = set()
    if os.path.exists(args[0]):
        done = {(d['file'], d['line'], d['what']) for d in map(json.loads, open(args[0]))}
    jobs = [j for j in jobs if j[:3] not in done]
    with cf.ThreadPoolExecutor(8) as ex, open(args[0], 'a') as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + '\n')
            o.flush()


if __name__ == '__main__':
    main()
