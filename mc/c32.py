"""C32: answers follow the constants in force."""
import itertools

from mc.lib import queries, same

ID = 'C32'
RULE = ('a case is a sequence of edits of the constants, additions of files and finalizing, and the step after which questions begin to be asked; the reference keeps the constants as plain sets and '
        'mappings, decides at an addition what parsing decides, and at a question what answering decides; observed are, after every step, image classification, URI components, expansions, package names, '
        'dynamic packages, resources, distro entries, and the parsed functions, includes and classes')
ASSUMPTIONS = ['constants are edited through the three methods of the database', 'a file that is parsed again after an edit is parsed under the new constants']

FILES = {
    'a_1.bb': 'inherit myimg\nA:ov = "1"\nA:append:oz:ov = "2"\ndo_x:foo() {\n    :\n}\ndo_x_foo() {\n    :\n}\n',
    'b_1.bb': 'MYVAR = "1"\nB = "${BX} ${BY} ${UNK}"\nPACKAGES = "${BX}-p"\nPACKAGES_DYNAMIC = "^${BX}-q.*"\nSRC_URI = "${MY}/a.tar;name=n1 http://h/b;name=n2"\n',
    'c_1.bb': 'inherit core-image k\ninclude x.inc\nC = "1"\n',
    'x.inc': 'X = "1"\n', 'classes/k.bbclass': 'K = "1"\n',
}
EDITS = [
    ('+', 'images/known-classes', ['myimg']), ('-', 'images/known-classes', ['core-image']), ('=', 'images/known-classes', ['myimg', 'other']),
    ('+', 'images/known-variables', ['MYVAR']), ('-', 'images/known-variables', ['MYVAR']), ('=', 'images/known-classes', []),
    ('+', 'replacements/mirrors', {'${MY}': 'http://m1/'}), ('=', 'replacements/mirrors', {'${MY}': 'git://m2'}), ('-', 'replacements/mirrors', ['${MY}']),
    ('=', 'sets/base', {'BX': 'v1', 'BY': 'w'}), ('=', 'sets/base', {'BX': 'v2'}), ('-', 'sets/base', ['BX']), ('+', 'sets/base', {'BZ': '${BX}'}),
    ('+', 'replacements/distros', ['ov']), ('-', 'replacements/distros', ['ov']), ('+', 'replacements/distros', ['oz']),
    ('+', 'functions/known', ['do_x']), ('-', 'functions/known', ['do_x']),
    ('+', 'ignore/classes', ['k']), ('-', 'ignore/classes', ['k']), ('+', 'ignore/include', ['x.inc']), ('=', 'ignore/include', []),
]
NE = len(EDITS)
ADD, FIN = NE, NE + 1
# edits that work on the same part of the database
PARTS = {}
for _i, _e in enumerate(EDITS):
    PARTS.setdefault(_e[1].split('/')[0] if not _e[1].startswith('repl') else _e[1], []).append(_i)
BOUNDS = {
    'quick': f'all sequences of <= 2 out of {NE} edits with the files added at every position, once or twice, and all of 3 edits of the same part; all questions after every step, or from a later step on only',
    'thorough': 'as quick with all sequences of <= 3 edits and all of 4 edits of the same part',
}


def histories(tier):
    deep = tier == 'thorough'
    for n in range(4 if deep else 3):
        yield from itertools.product(range(NE), repeat=n)
    for p in PARTS.values():
        for n in (3, 4) if deep else (3,):
            yield from itertools.product(p, repeat=n)


def cases(tier):
    for h in histories(tier):
        for p in range(len(h) + 1):
            one = [*h[:p], ADD, FIN, *h[p:]]
            # asked from the beginning, and at the end alone
            yield [one, 0]
            yield [one, len(one) - 1]
            if p < len(h) and (len(h) < 3 or tier == 'thorough'):
                for q in range(p + 1, len(h) + 1):
                    yield [[*h[:p], ADD, *h[p:q], ADD, FIN, *h[q:]], 0]
                if p:
                    yield [[*h[:p], ADD, *h[p:], FIN], 0]


def name(op):
    if op == ADD:
        return 'add the files'
    if op == FIN:
        return 'finalize'
    return '{} {} {}'.format({'+': 'add', '-': 'remove', '=': 'override'}[EDITS[op][0]], *EDITS[op][1:])


def render(case):
    return ' ; '.join(map(name, case[0])) + f' ; questions from step {case[1] + 1} on'


def nest(path, v):
    for k in reversed(path.split('/')):
        v = {k: v}
    return v


class Model:
    """the constants as plain data and what parsing decides"""

    def __init__(self, const):
        self.c = {p: (dict(v) if isinstance(v, dict) else list(v)) for p in {e[1] for e in EDITS} for v in [const.GetByPath(p)]}
        self.files = []

    def edit(self, kind, path, v):
        c = self.c[path]
        if isinstance(c, dict):
            if kind == '-':
                for k in v:
                    c.pop(k, None)
            else:
                c.update(v)
        elif kind == '+':
            c.extend(v)
        elif kind == '-':
            self.c[path] = [x for x in c if x not in v]
        else:
            self.c[path] = list(v)

    def add(self):
        """parse time facts"""
        # in the new style, which a_1.bb is in from its second line on, an underscore belongs to the name
        f = [('do_x', ['foo']) if 'do_x' in self.c['functions/known'] else ('do_x:foo', []), ('do_x_foo', [])]
        self.files.append((f, 'k' not in self.c['ignore/classes'], 'x.inc' not in self.c['ignore/include']))

    def image(self, f):
        k, v = self.c['images/known-classes'], self.c['images/known-variables']
        return {'a_1.bb': 'myimg' in k, 'b_1.bb': 'MYVAR' in v, 'c_1.bb': 'core-image' in k or 'k' in k}[f]

    def base(self, n):
        return self.expand(self.c['sets/base'][n]) if n in self.c['sets/base'] else '${' + n + '}'

    def expand(self, s):
        for n in ('BX', 'BY', 'BZ'):
            r = '${' + n + '}'
            if r in s:
                s = s.replace(r, self.base(n) if n in self.c['sets/base'] else r)
        return s

    def scr(self, s):
        for k, v in self.c['replacements/mirrors'].items():
            s = s.replace(k, v)
        loc, *opts = s.split(';')
        scheme, sep, rest = loc.partition('://')
        if not sep:
            return None
        host, _, path = rest.partition('/')
        return {'scheme': scheme, 'src': host + ('/' + path.lstrip('/') if path else ''), 'options': dict(o.split('=', 1) for o in opts)}

    def distro(self, subs):
        return next((s for s in subs if s in self.c['replacements/distros']), '')


def ask(env, st, m):
    p = {f: env.path(f) for f in FILES}
    n = 0
    if not m.files:
        return 0
    for f in ('a_1.bb', 'b_1.bb', 'c_1.bb'):
        same(f'image({f})', st.IsImage(p[f]), m.image(f))
        n += 1
    b = p['b_1.bb']
    for u in ('${MY}/a.tar;name=n1', 'http://h/b;name=n2'):
        want = m.scr(u)
        if want:
            same(f'components of {u}', st.GetScrComponents(u), want)
            n += 1
    same('named resources', sorted(st.GetValidNamedResources(b)), ['b', 'n1', 'n2'])
    for t in ('${BX}', '${BX} ${BY} ${UNK}', '${B}', '${BZ}'):
        want = m.expand('${BX} ${BY} ${UNK}' if t == '${B}' else t)
        same(f'expansion of {t}', st.ExpandTerm(b, t), want)
        n += 1
    e = st.ExpandVar(filename=b)
    same('value of B', e.get('B'), m.expand('${BX} ${BY} ${UNK}').split())
    for k in ('BX', 'BY', 'BZ'):
        same(f'value of {k}', e.get(k), m.base(k).split() if k in m.c['sets/base'] else None)
    x = m.expand('${BX}')
    same('package of the base set', x + '-p' in st.GetValidPackageNames(b), True)
    same('other package', ('v1' if x != 'v1' else 'v2') + '-p' in st.GetValidPackageNames(b), False)
    if not x.startswith('$'):
        same('dynamic patterns', sorted(st.GetPackagesDynamic(b)), [f'^{x}-q.*'])
        for v in ('v1', 'v2'):
            same(f'is {v}-q1 dynamic', st.IsDynamicPackage(b, f'{v}-q1'), v == x)
    n += 9
    a = p['a_1.bb']
    for it in st.GetItemsFor(filename=a, nolink=True, classifier='Variable'):
        same(f'distro entry of {it.VarNameComplete}', it.GetDistroEntry(), m.distro(it.SubItems))
        n += 1
    # what parsing decided stays as it is
    got = [(x.FuncName, x.SubItems) for x in st.GetItemsFor(filename=a, nolink=True, classifier='Function') if x.InFileLine == 4]
    same('function with an override', got, [f[0][0] for f in m.files])
    got = [(x.FuncName, x.SubItems) for x in st.GetItemsFor(filename=a, nolink=True, classifier='Function') if x.InFileLine == 7]
    same('function without an override', got, [f[0][1] for f in m.files])
    same('ignored or parsed include', len(st.GetItemsFor(filename=p['x.inc'])), sum(f[2] for f in m.files))
    same('ignored or parsed class', len(st.GetItemsFor(filename=p['classes/k.bbclass'])), int(any(f[1] for f in m.files)))
    return n + 4


def run(case, env):
    from mc.engine import Obs
    ops, since = case
    for f, t in FILES.items():
        env.write(f, t)
    c = env.CONSTANTS
    m = Model(c)
    st = env.stash()
    n = 0
    for i, op in enumerate(ops):
        if op == ADD:
            for f in ('a_1.bb', 'b_1.bb', 'c_1.bb'):
                st.AddFile(env.path(f))
            m.add()
        elif op == FIN:
            st.Finalize()
        else:
            kind, path, v = EDITS[op]
            if kind == '+' and isinstance(v, dict) and any(k in m.c[path] for k in v):
                # what adding over a string does has no documented meaning
                kind = '='
            getattr(c, {'+': 'AddConstants', '-': 'RemoveConstants', '=': 'OverrideConstants'}[kind])(nest(path, v))
            m.edit(kind, path, v)
        if i >= since:
            n += ask(env, st, m)
            n += ask(env, st, m)
        n += 1
    return Obs(states=[tuple(ops[:k + 1]) for k in range(len(ops))], transitions=n, outcome=repr((sorted((k, str(v)) for k, v in m.c.items()), m.files)))
