"""C31: a file that cannot be read spoils nothing else."""
import itertools
import json
import os

from mc.lib import check, only, same

ID = 'C31'
RULE = ('a case is an order of additions, the addition during which one or two files cannot be read (the read fails, or the bytes are no text), and whether and when the failed addition is repeated '
        'with the files readable again; a model of who reads what says which additions fail and what every file consists of afterwards. The other cases are terms that read a file in some state, '
        'and constant databases cut off or damaged at every byte')
ASSUMPTIONS = ['files change only where the case says so', 'what is known of a file whose addition failed and was not repeated is left open',
               'repeating an addition may repeat the items of the files included']

TEXT = {
    'conf/layer.conf': 'LC = "1"\n',
    'a_1.0.bb': 'A1 = "1"\nrequire i.inc\ninherit k\nA2 = "${I} ${K}"\n',
    'b_2.0.bb': 'inherit k k2\nB1 = "2"\nrequire i.inc\nB2 = "${K2}"\n',
    'i.inc': 'I = "i"\nrequire n.inc\nI2 = "${N}"\n',
    'n.inc': 'N = "n"\n',
    'classes/k.bbclass': 'K = "k"\ninherit k2\n',
    'classes/k2.bbclass': 'K2 = "kk"\n',
    'a_%.bbappend': 'P = "p"\nrequire m.inc\nP2 = "${A1}"\n',
    'm.inc': 'M = "m"\ninherit k2\n',
    'x.conf': 'X = "x"\ninclude n.inc\n',
}
READS = {'a_1.0.bb': ['i.inc', 'classes/k.bbclass'], 'b_2.0.bb': ['classes/k.bbclass', 'classes/k2.bbclass', 'i.inc'], 'i.inc': ['n.inc'], 'classes/k.bbclass': ['classes/k2.bbclass'],
         'a_%.bbappend': ['m.inc'], 'm.inc': ['classes/k2.bbclass'], 'x.conf': ['n.inc']}
ADDS = ['a_1.0.bb', 'b_2.0.bb', 'a_%.bbappend', 'x.conf', 'classes/k.bbclass']
FAULTY = [n for n in TEXT if n != 'conf/layer.conf']
KINDS = ['io', 'bytes', 'middle']
AGAIN = ['never', 'next', 'end', 'fails again, then next']
TERMS = ["${@oe.utils.read_file('{p}')}", "a ${@oe.utils.read_file('{p}')} b ${A}", '${@oe.utils.read_file("${THISDIR}/t.txt")}', "${@oe.utils.read_file('{p}')}${@oe.utils.read_file('{q}')}"]
STATES = ['text', 'empty', 'io', 'bytes', 'missing', 'directory', 'dangling', 'below a file', 'long name', 'unicode', 'middle']
DB = {'functions': {'known': ['do_a', 'do_b'], 'order': ['do_b']}, 'variables': {'known': ['A', '\xc4']}, 'replacements': {'mirrors': {'a': 'b'}, 'distros': ['d'], 'machines': []},
      'images': {'known-classes': ['image'], 'known-variables': []}, 'sets': {'base': {'PN': 'x'}}, 'ignore': {'classes': [], 'include': ['y']}}
DBTEXT = json.dumps(DB, ensure_ascii=False, indent=1).encode()
SWAP = [0xff, 0x00, ord('{'), ord('"'), 0xc3, ord('1'), ord('\\')]
GETTERS = ['FunctionsKnown', 'FunctionsOrder', 'MirrorsKnown', 'VariablesKnown', 'DistrosKnown', 'MachinesKnown', 'ImagesClasses', 'ImagesVariables', 'SetsBase', 'ClassIgnore', 'IncludeIgnore']
BOUNDS = {
    'quick': f'all orders of 3 of {len(ADDS)} additions x the addition that fails x all sets of one or two (repeated at once) of {len(FAULTY)} files x {len(KINDS)} kinds of damage x {len(AGAIN)} repetitions; '
             f'{len(TERMS)} terms x {len(STATES)} states of two files; a database of {len(DBTEXT)} bytes: all lengths it can be cut to, all single bytes replaced by {len(SWAP)} others',
    'thorough': 'as quick, with orders of 4 additions',
}
MEM = '/proc/self/mem'


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    sets = [[i] for i in range(len(FAULTY))] + [list(x) for x in itertools.combinations(range(len(FAULTY)), 2)]
    for order in itertools.permutations(range(len(ADDS)), n):
        for t in range(n):
            for s in sets:
                for kind in range(len(KINDS)):
                    if kind and len(s) == 2:
                        continue
                    for again in range(len(AGAIN)):
                        if len(s) == 1 or again == 1 or tier == 'thorough':
                            yield ['add', list(order), t, s, kind, again]
    for i in range(len(TERMS)):
        for s, s2 in itertools.product(range(len(STATES)), repeat=2):
            if s2 == 0 or i == 3:
                yield ['term', i, s, s2]
    for n in range(len(DBTEXT) + 1):
        yield ['cut', n]
    for n in range(len(DBTEXT)):
        for c in SWAP:
            yield ['swap', n, c]
    for s in range(len(STATES)):
        yield ['db', s]


def render(case):
    if case[0] == 'add':
        _, order, t, s, kind, again = case
        return 'add ' + ', '.join(ADDS[x] for x in order) + f'; during addition {t + 1} {" and ".join(FAULTY[x] for x in s)} cannot be read ({KINDS[kind]}), repeated: {AGAIN[again]}'
    if case[0] == 'term':
        return f'{TERMS[case[1]]} with {STATES[case[2]]}, {STATES[case[3]]}'
    if case[0] == 'db':
        return 'constants from ' + STATES[case[1]]
    return f'constants {case[0]} at {case[1:]}'


def spoil(env, name, kind):
    p = env.path(name)
    if os.path.lexists(p):
        os.unlink(p)
    text = TEXT.get(name, '').encode()
    if kind == 'io':
        os.symlink(MEM, p)
    elif kind == 'bytes':
        with open(p, 'wb') as o:
            o.write(b'Q = "\xff\xfe"\n' + text)
    else:
        with open(p, 'wb') as o:
            o.write(text + b'# ' + b'x' * 20000 + b'\n' + text + b'R = "\xc3("\n')


def restore(env, name):
    p = env.path(name)
    if os.path.lexists(p):
        os.unlink(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as o:
        o.write(TEXT[name])


class Model:
    """who has been read, and what an addition reads"""

    def __init__(self):
        self.seen = set()
        self.bad = set()

    def read(self, name):
        """True if it works"""
        once = name.endswith(('.bbclass', '.bbappend'))
        if once and name in self.seen:
            return True
        if name in self.bad:
            return False
        self.seen.add(name)
        for x in READS.get(name, []):
            if not self.read(x):
                self.seen.discard(name)
                return False
        return True


def closure(name, out=None):
    out = out if out is not None else []
    if name not in out:
        out.append(name)
        for x in READS.get(name, []):
            closure(x, out)
    return out


def lines(name):
    return {(name, i + 1, x) for i, x in enumerate(TEXT[name].splitlines(keepends=True))}


VALUES = {'A1': ['1'], 'A2': ['i', 'k'], 'B1': ['2'], 'B2': ['kk'], 'I': ['i'], 'I2': ['n'], 'N': ['n'], 'K': ['k'], 'K2': ['kk'], 'P': ['p'], 'P2': ['1'], 'M': ['m'], 'X': ['x']}


def additions(case, env):
    _, order, t, s, kind, again = case
    for n in TEXT:
        restore(env, n)
    st = env.stash()
    model = Model()
    good, failed = [], []
    names = [ADDS[x] for x in order]
    todo = [(n, i == t, 0) for i, n in enumerate(names)]
    done = []
    nfail = 0
    while todo:
        name, broken, attempt = todo.pop(0)
        bad = [FAULTY[x] for x in s] if broken else []
        for x in bad:
            spoil(env, x, KINDS[kind])
        model.bad = set(bad)
        known = name in model.seen and name.endswith(('.bbclass', '.bbappend'))
        ok = model.read(name)
        try:
            res = st.AddFile(env.path(name))
            got = True
        except (OSError, UnicodeDecodeError) as e:
            got = False
            check(isinstance(e, UnicodeDecodeError) == (KINDS[kind] != 'io'), f'{type(e).__name__} for unreadable files ({KINDS[kind]})')
        finally:
            for x in bad:
                restore(env, x)
        done.append((name, got))
        same(f'addition of {name} works with {bad} unreadable', got, ok)
        if ok:
            # what has been known before is not read again
            same(f'items returned for {name}', {(os.path.relpath(x.Origin, env.root), x.InFileLine, x.RealRaw) for x in res}, set() if known else lines(name))
            good.append(name)
        else:
            nfail += 1
            failed.append(name)
            if AGAIN[again] == 'next':
                todo.insert(0, (name, False, attempt + 1))
            elif AGAIN[again] == 'end':
                todo.append((name, False, attempt + 1))
            elif again == 3:
                todo.insert(0, (name, attempt < 2, attempt + 1))
    st.Finalize()
    query(env, st, good, failed, kind == 0 and len(s) == 1)
    same('recipes', [os.path.relpath(x, env.root) for x in st.GetRecipes() if os.path.relpath(x, env.root) in good or os.path.relpath(x, env.root) not in failed],
         [x for x in ADDS if x in good and x.endswith('.bb')])
    same('configurations', {os.path.relpath(x, env.root) for x in st.GetConfFiles()} - set(failed) | ({'x.conf'} & set(good)), {'x.conf'} & set(good))
    return tuple(done), nfail


def query(env, st, good, failed, full_values):
    for name in set(good):
        want = closure(name)
        if name == 'a_1.0.bb' and 'a_%.bbappend' in good:
            closure('a_%.bbappend', want)
        if name == 'a_%.bbappend' and 'a_1.0.bb' in failed and 'a_1.0.bb' not in good:
            continue
        if name == 'a_1.0.bb' and 'a_%.bbappend' in failed and 'a_%.bbappend' not in good:
            extra = closure('a_%.bbappend')
        else:
            extra = []
        items = st.GetItemsFor(filename=env.path(name))
        got = {(os.path.relpath(x.Origin, env.root), x.InFileLine, x.RealRaw) for x in items}
        full = set()
        for x in want:
            full |= lines(x)
        perhaps = set()
        for x in extra:
            perhaps |= lines(x)
        same(f'items of {name}', sorted(got - (perhaps - full)), sorted(full))
        got = st.ExpandVar(filename=env.path(name)) if full_values else {}
        for k, v in VALUES.items():
            if any(x[2].startswith(k + ' ') for x in full) and (k != 'P2' or name == 'a_1.0.bb'):
                same(f'term {k} in {name}', st.ExpandTerm(env.path(name), '${%s}' % k), v[0] if k != 'A2' else 'i k')
                if full_values:
                    same(f'{k} in {name}', got.get(k), v)
        same('PN', st.ExpandTerm(env.path(name), '${PN}'), name.split('_')[0] if '_' in name else st.ExpandTerm(env.path(name), '${PN}'))
    for name in failed:
        for x in only(st.GetItemsFor(filename=env.path(name)), 'Variable'):
            check(os.path.relpath(x.Origin, env.root) in TEXT, f'unexpected origin {x.Origin}')


def put(env, name, state):
    """returns the text that can be read from it"""
    p = env.path(name)
    if state in ('text', 'empty', 'unicode'):
        t = {'text': f'content of {name}\n', 'empty': '', 'unicode': 'gr\xfc\xdfe \u20ac'}[state]
        with open(p, 'w', encoding='utf-8') as o:
            o.write(t)
        return t
    if state in ('io', 'bytes', 'middle'):
        spoil(env, name, state)
    elif state == 'directory':
        os.makedirs(p)
    elif state == 'dangling':
        os.symlink(env.path('nowhere'), p)
    return ''


def where(env, name, state):
    if state == 'below a file':
        return env.path('a_1.0.bb') + '/' + name
    if state == 'long name':
        return env.path('x' * 300) + '/' + name
    return env.path(name)


def terms(case, env):
    _, i, s, s2 = case
    env.wipe()
    f = env.write('a_1.0.bb', 'A = "av"\n')
    a, b = put(env, 't.txt', STATES[s]), put(env, 'u.txt', STATES[s2])
    st = env.stash()
    st.AddFile(f)
    p, q = where(env, 't.txt', STATES[s]), where(env, 'u.txt', STATES[s2])
    term = TERMS[i].replace('{p}', p).replace('{q}', q)
    want = [a, f'a {a} b av', a if STATES[s] not in ('below a file', 'long name') else '', a + b][i]
    for _ in range(2):
        same(f'{TERMS[i]} with {STATES[s]}, {STATES[s2]}', st.ExpandTerm(f, term), want)
    same('another term', st.ExpandTerm(f, '${A} ${PN}'), 'av a')
    env.wipe()
    return want.replace(env.root, '')


def database(case, env):
    import contextlib
    import io
    p = env.path('db.json')
    want = {}
    if case[0] == 'db':
        env.wipe()
        put(env, 'db.json', STATES[case[1]])
        p = where(env, 'db.json', STATES[case[1]])
    else:
        data = DBTEXT[:case[1]] if case[0] == 'cut' else DBTEXT[:case[1]] + bytes([case[2]]) + DBTEXT[case[1] + 1:]
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, 'wb') as o:
            o.write(data)
        try:
            want = json.loads(data.decode())
        except ValueError:
            want = None
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        c = env.constants.Constants(p)
    if not want:
        check(err.getvalue(), 'the failure to load the constants is not reported')
        want = {}
    else:
        same('message', err.getvalue(), '')
    for g, path in zip(GETTERS, ('functions/known', 'functions/order', 'replacements/mirrors', 'variables/known', 'replacements/distros', 'replacements/machines', 'images/known-classes',
                                 'images/known-variables', 'sets/base', 'ignore/classes', 'ignore/include')):
        x = want
        for k in path.split('/'):
            x = x.get(k, {}) if isinstance(x, dict) else {}
        same(g, getattr(c, g), x)
        same(path, c.GetByPath(path), x)
    if not want:
        c.AddConstants(DB)
        same('constants added to none', c.GetByPath('functions'), DB['functions'])
    c = env.constants.Constants(DB)
    same('other constants', c.GetByPath('functions'), DB['functions'])
    return tuple(sorted(want)), bool(err.getvalue())


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'add':
        env.clear_caches()
        out, n = additions(case, env)
        return Obs(states=[(case[0], out)], transitions=len(out) * 8, outcome=(out, n))
    out = (terms if case[0] == 'term' else database)(case, env)
    return Obs(states=[(case[0], repr(out))], transitions=12, outcome=(case[0], repr(out)))
