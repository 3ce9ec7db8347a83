"""C14: effective values."""
import itertools

from mc.lib import LARGE, SIZES, VARS, same, words_upto

ID = 'C14'
RULE = ('a case is a history of assignments and unsets, an override style, a spacing variant and the place of the later statements (same file, '
        'included file, bbappend); the reference is an interpreter of the assignment semantics over one value, one weak default, one '
        'list of deferred operations and one set of removed words')
ASSUMPTIONS = ['variables of the base set and the names the file name gives start with that value', 'an unset takes effect on immediate assignments and weak defaults only; a missing key counts as an empty list',
               'append/prepend/remove overrides are used with "=" only']

# operator/override, value
CORE = [('=', 'x y'), ('?=', 'd x'), ('??=', 'w'), ('+=', 'p'), ('=+', 'q x'), ('.=', 'r'), ('=.', 's'), (':append', ' t'), (':prepend', 'v '),
        (':remove', 'x'), ('unset', '')]
MORE = [(':=', 'z'), (':append', 'u x'), (':remove', 'p t'), ('flag', 'n'), ('unsetflag', ''), ('other', 'b'), ('ovr', 'o x'), ('ovr+=', 'o2'),
        ('=', '${B} k'), (':remove', '${BC} d'), ('=', ''), ('??=', 'x w2'), (':prepend', 'x'), ('ovr:append', ' m'), ('otherunset', ''), ('+=', ' a  b '),
        ('?=', ''), ('=', 'a \\\n  x \\\n'), ('ovr:remove', 'o'), (':append', ''), ('unsetflag:value', ''), ('flag:value', 'fv')]
SYM = CORE + MORE
FLAGNAMES = ['doc', 'value', 'A', 'B', 'type', 'export', 'unexport', 'func', 'python', 'task', 'noexec', 'nostamp', 'dirs', 'cleandirs', 'fakeroot', 'network', 'lockfiles', 'depends',
             'rdepends', 'vardeps', 'vardepsexclude', 'vardepvalue', 'md5sum', 'sha256sum', 'name.sha256sum', 'progress', 'umask', 'number_threads', 'deptask', 'recrdeptask',
             'weak', 'append', 'prepend', 'remove', 'x86', '_content', 'filename', 'lineno', 'history', 'None', 'defaultval', 'x-y', 'file-checksums', 'prefuncs', 'postfuncs', '0']
BASED = ['PACKAGES', 'SOLIBS', 'SOLIBSDEV', 'MLPREFIX', 'PACKAGE_BEFORE_PN', 'PN', 'PV', 'BPN', 'P', 'BP']
NAMED = VARS + BASED
FMT = [lambda op: f' {op} ', lambda op: op, lambda op: f'  {op}\t', lambda op: f' {op} ']
# spacing variant with single quotes
SINGLE = 3
BOUNDS = {
    'quick': f'all histories of <= 3 of {len(SYM)} statements; of <= 2 in both styles x 3 spacings x 3 places; of 4 over {len(CORE)} core statements; {len(FLAGNAMES)} flag names x 4 patterns; {len(NAMED)} well-known names x the statements alone, before and after an assignment and around deferred ones; every statement up to 129 times, alone, after and before an assignment; every pair of core statements up to 51 times',
    'thorough': f'all histories of <= 4 of {len(SYM)} statements; of <= 3 in both styles x 3 spacings x 3 places; of 5 over {len(CORE)} core statements; every statement up to 600 times, pairs up to 129 times',
}
REFNAMES = [('A{s}${PN}', 'A{s}foo'), ('A{s}${PN}-dev', 'A{s}foo-dev'), ('A{s}${B}', 'A{s}bb'), ('A-${PV}', 'A-1.0')]
START = 'B = "bb"\nBC = "x  p \\\n  bb"\n'


def cases(tier):
    deep = tier == 'thorough'
    n = 3 if deep else 2
    for fl in FLAGNAMES:
        for pat in range(4):
            for style in ':_':
                for where in range(3):
                    yield ['flag', fl, pat, style, where]
    # well-known names
    for nm in range(len(NAMED)):
        for h in [*words_upto(range(len(SYM)), 1), *([0, i] for i in range(len(SYM))), *([i, 0] for i in range(1, len(SYM))), *([i, 7, 9, i] for i in range(len(CORE)))]:
            h = list(h)
            yield [h, ':_'[(nm + sum(h)) % 2], 0, (nm + len(h)) % 3, nm]
    # names with a reference in them
    for rn in range(len(REFNAMES)):
        for style in ':_':
            for h in [*words_upto(range(len(CORE)), 3 if deep else 2), *([0, i, j] for i in range(len(CORE)) for j in range(len(SYM)))]:
                if not any(SYM[i][0].startswith(('ovr', 'unset')) for i in h):
                    yield ['ref', list(h), style, rn]
    # the same over and over again
    for i in range(len(SYM)):
        for k in (LARGE if deep else SIZES):
            yield [[i] * k, ':_'[k % 2], 0, k % 3]
            yield [[0] + [i] * k, ':_'[k % 2], 0, k % 3]
            yield [[i] * k + [0], ':_'[k % 2], 0, k % 3]
    for i, j in itertools.product(range(len(CORE)), repeat=2):
        for k in (SIZES[::3] if deep else (9, 17, 33, 51)):
            yield [[i, j] * k, ':_'[k % 2], 0, k % 3]
    for h in words_upto(range(len(SYM)), n):
        for style in ':_':
            for fmt in range(len(FMT)):
                for where in range(3):
                    yield [list(h), style, fmt, where]
    for h in itertools.product(range(len(SYM)), repeat=n + 1):
        yield [list(h), ':_'[sum(h) % 2], 0, 0]
    for h in itertools.product(range(len(CORE)), repeat=n + 2):
        yield [list(h), ':', 0, (sum(h) % 3)]


def stm(i, style, fmt, name='A'):
    t = stmA(i, style, fmt)
    if fmt == SINGLE:
        t = t.replace('"', "'")
    return t if name == 'A' else t.replace('unset A', f'unset {name}') if t.startswith('unset A') else name + t[1:] if t[0] == 'A' else t


def stmA(i, style, fmt):
    op, v = SYM[i]
    f = FMT[fmt]
    if op == 'unset':
        return 'unset A\n'
    if op.startswith('unsetflag'):
        return f'unset A[{op[10:] or "doc"}]\n'
    if op == 'otherunset':
        return 'unset C\n'
    if op.startswith('flag'):
        return f'A[{op[5:] or "doc"}]{f("=")}"{v}"\n'
    if op == 'other':
        return f'C{f("+=")}"{v}"\n'
    if op.startswith('ovr'):
        rest = op[3:]
        if rest.startswith(':'):
            return f'A{style}{rest[1:]}{style}x86{f("=")}"{v}"\n'
        return f'A{style}x86{f(rest or "=")}"{v}"\n'
    if op in (':append', ':prepend', ':remove'):
        return f'A{style}{op[1:]}{f("=")}"{v}"\n'
    return f'A{f(op)}"{v}"\n'


def build(case):
    h, style, fmt, where = case[:4]
    s = [stm(i, style, fmt, NAMED[case[4]] if len(case) > 4 else 'A') for i in h]
    half = len(s) // 2
    if where == 0:
        return {'foo_1.0.bb': START + ''.join(s)}
    if where == 1:
        return {'foo_1.0.bb': START + ''.join(s[:half]) + 'require x.inc\n' + ''.join(s[-1:] if len(s) > 1 else []),
                'x.inc': ''.join(s[half:-1] if len(s) > 1 else s[half:])}
    return {'foo_1.0.bb': START + ''.join(s[:half]), 'foo_%.bbappend': ''.join(s[half:])}


def render(case):
    if case[0] == 'ref':
        return START + ''.join(stm(i, case[2], 0, REFNAMES[case[3]][0].replace('{s}', case[2])) for i in case[1])
    if case[0] == 'flag':
        return f'A[{case[1]}] set or unset, pattern {case[2]}, style {case[3]}, place {case[4]}'
    return '\n'.join(f'--- {n}\n{t}' for n, t in build(case).items())


def words(v):
    return (v or '').replace('\\\n', ' ').replace('${BC}', 'x p bb').replace('${B}', 'bb').split()


class Ref:
    """interpreter of one variable"""

    def __init__(self):
        self.val = None
        self.weak = None
        self.defer = []
        self.gone = []
        self.seen = False

    def step(self, op, v):
        self.seen = True
        if op in ('=', ':='):
            self.val = v
        elif op == '?=':
            if self.val is None:
                self.val = v
        elif op == '??=':
            self.weak = v
        elif op == '+=':
            self.val = (self.val or '') + ' ' + v
        elif op == '=+':
            self.val = v + ' ' + (self.val or '')
        elif op == '.=':
            self.val = (self.val or '') + v
        elif op == '=.':
            self.val = v + (self.val or '')
        elif op == 'unset':
            self.val = self.weak = None
        elif op in (':append', ':prepend'):
            self.defer.append((op, v))
        elif op == ':remove':
            self.gone += words(v)

    def value(self):
        v = self.weak if self.val is None else self.val
        for op, x in self.defer:
            v = (v or '') + x if op == ':append' else x + (v or '')
        return [w for w in words(v) if w not in self.gone]


def flagcase(case, env):
    """flags never touch the value, whatever their name"""
    from mc.engine import Obs
    _, fl, pat, style, where = case
    s = [['A = "x y"', f'A[{fl}] = "z"', f'unset A[{fl}]'], ['A ?= "x y"', f'unset A[{fl}]'], [f'A[{fl}] = "q"', 'A ??= "x"', f'A[{fl}] += "z"', f'A{style}append = " y"', f'unset A[{fl}]'],
         [f'A = "x"', f'unset A[{fl}]', 'A += "y"', f'A[{fl}] = "k"', f'A[{fl}] .= "${{A}}"']][pat]
    half = len(s) // 2
    first, second = '\n'.join(s[:half]) + '\n', '\n'.join(s[half:]) + '\n'
    env.write('x.inc', second)
    env.write('foo_%.bbappend', second if where == 2 else '')
    p = env.write('foo_1.0.bb', START + first + ['' + second, 'require x.inc\n', ''][where])
    st = env.stash()
    st.AddFile(p)
    if where == 2:
        st.AddFile(env.path('foo_%.bbappend'))
    st.Finalize()
    full = st.ExpandVar(filename=p)
    same('expansion of A', full.get('A', []), ['x', 'y'])
    same('restricted expansion of A', st.ExpandVar(filename=p, attribute='VarName', attributeValue='A').get('A', []), ['x', 'y'])
    same('other keys', sorted(k for k in full if k.startswith('A') and k != 'A'), [])
    same('expansion of B', full.get('B'), ['bb'])
    return Obs(states=[tuple(case)], transitions=len(s), outcome=tuple(case))


def refcase(case, env):
    """a name with references is known by what it expands to"""
    from mc.engine import Obs
    _, h, style, rn = case
    p = env.write('foo_1.0.bb', render(case))
    st = env.stash()
    st.AddFile(p)
    st.Finalize()
    a, c = Ref(), Ref()
    for i in h:
        op, v = SYM[i]
        if op == 'other':
            c.step('+=', v)
        elif op != 'flag':
            a.step(op, v)
    full = st.ExpandVar(filename=p)
    key = REFNAMES[rn][1].replace('{s}', style)
    same(f'expansion of {key}', full.get(key, []), a.value())
    same('other keys', sorted(k for k in full if k.startswith('A') and k != key), [])
    same('expansion of C', full.get('C', []), c.value())
    return Obs(states=[tuple(a.value())], transitions=len(h), outcome=tuple(a.value()))


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'ref':
        return refcase(case, env)
    if case[0] == 'flag':
        return flagcase(case, env)
    h, style, fmt, where = case[:4]
    A = NAMED[case[4]] if len(case) > 4 else 'A'
    for f in ('x.inc', 'foo_%.bbappend'):
        env.write(f, '')
    files = build(case)
    for n, t in files.items():
        env.write(n, t)
    p = env.path('foo_1.0.bb')
    st = env.stash()
    st.AddFile(p)
    if where == 2:
        st.AddFile(env.path('foo_%.bbappend'))
    st.Finalize()
    a, x, c = Ref(), Ref(), Ref()
    facts = {'PN': 'foo', 'PV': '1.0', 'BPN': 'foo'}
    base = {**facts, **{k: v for k, v in env._db_keys['sets']['base'].items()}}
    if A in base:
        a.val = base[A]
    states = []
    for i in h:
        op, v = SYM[i]
        if op == 'other':
            c.step('+=', v)
        elif op == 'otherunset':
            c.step('unset', '')
        elif op.startswith('ovr'):
            x.step(op[3:] or '=', v)
        elif not op.startswith(('flag', 'unsetflag')):
            a.step(op, v)
        states.append((a.val, a.weak, tuple(a.defer), tuple(a.gone), x.val, tuple(x.defer)))
    got = st.ExpandVar(filename=p, attribute='VarName', attributeValue=A)
    # what the variable itself is referred to by other variables of the base set
    own = {**facts, 'MLPREFIX': '', 'PACKAGE_BEFORE_PN': ''}
    if A != 'A' and not h:
        return Obs()

    def full_words(ref):
        v = ' '.join(ref.value())
        for _ in range(3):
            for k, y in own.items():
                v = v.replace('${%s}' % k, y if k != A else '${%s}' % k)
        return v.split()
    full = st.ExpandVar(filename=p)
    if A in base:
        # a value of its own is what other expansions of the same name see; not looked at here
        own.pop(A, None)
    key = f'{A}:x86' if style == ':' else f'{A}_x86'
    # the delimiter of the item decides about the key
    for what, res in (('restricted', got), ('complete', full)):
        same(f'{what} expansion of {A}', res.get(A, []), full_words(a))
        same(f'{what} expansion of {key}', res.get(key, []), x.value())
    same('expansion of C', full.get('C', []), c.value())
    same('expansion of B', full.get('B'), ['bb'])
    same('other keys', sorted(k for k in full if k.startswith(A) and k not in (A, key) and len(case) < 5), [])
    same('unrelated keys', got.get('C', []) + got.get('B', []), [])
    out = (tuple(a.value()), tuple(x.value()), tuple(c.value()))
    return Obs(states=states, transitions=len(h) + 2, outcome=out)
