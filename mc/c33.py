"""C33: edited items."""
import itertools

from mc.lib import check, same, words_upto

ID = 'C33'
RULE = ('a case is a sequence of edits of items of a recipe, its include and its bbappend through the settable attributes (value, body, text, unprocessed text, line), and the step from which on questions are '
        'asked; the reference is, for values and lines, a stash that was never edited, whose files were written with the statements as they are now, and for filters a scan over the items; all other attributes of '
        'the edited item that do not follow from the edited one, and all other items, have to stay as they were')
ASSUMPTIONS = ['values that are set contain no inline blocks', 'lines are exchanged, so that no two items share one']

STM = ['A = "a b"', 'A += "c"', 'B = "${A} x"', 'B = "y"', 'PACKAGES = "p1"', 'PACKAGES_DYNAMIC = "^d1.*"', 'SRC_URI = "git://h/r;name=n1"', '# comment', 'do_x() {\n    echo {a}\n}', 'include x.inc', 'C = "${X} ${A}"', 'A:remove = "c"', '',
       'IMAGE_FEATURES ?= "i"']
INC = ['X = "1"', 'A:append = " i"']
APP = ['A .= "s"', 'D = "${B}"']
FILES = {'a_1.bb': STM, 'x.inc': INC, 'a_%.bbappend': APP}
# file, statement, attribute, value; or two statements that exchange their lines
EDITS = [
    ('a_1.bb', 0, 'VarValue', '"z"'), ('a_1.bb', 0, 'VarValue', '"a b"'), ('a_1.bb', 1, 'VarValue', '"k l"'), ('a_1.bb', 2, 'VarValue', '"${A}w ${X}"'), ('a_1.bb', 2, 'VarValue', '""'), ('a_1.bb', 4, 'VarValue', '"p2 ${PN}-p3"'),
    ('a_1.bb', 5, 'VarValue', '"^d2.*"'), ('a_1.bb', 6, 'VarValue', '"git://h/r;name=n2 file://x;name=n3"'), ('x.inc', 0, 'VarValue', '"2"'), ('x.inc', 1, 'VarValue', '" j"'), ('a_%.bbappend', 0, 'VarValue', '"t"'),
    ('a_1.bb', 11, 'VarValue', '"b k"'), ('a_1.bb', 0, 1), ('a_1.bb', 2, 3), ('a_%.bbappend', 0, 1),
    ('a_1.bb', 3, 'VarValue', ''), ('a_1.bb', 0, 'VarValue', "'s t'"), ('a_1.bb', 1, 'VarValue', 'bare'),
    ('a_1.bb', 7, 'Raw', '# other\n# text\n'), ('a_1.bb', 8, 'FuncBody', '    {echo} other\n'), ('a_1.bb', 0, 'RealRaw', 'A = "a \\\n  b"\n'), ('a_1.bb', 0, 'RealRaw', 'A = "a b"\n'), ('a_1.bb', 10, 'Raw', 'C  =  "x"\n'),
]
BOUNDS = {
    'quick': f'all sequences of <= 2 out of {len(EDITS)} edits, and of 3 of 8 of them; asked after every step, and at the end alone',
    'thorough': f'all sequences of <= 3 out of {len(EDITS)} edits, and of 4 of 9 of them; asked after every step, from every later step on',
}


def cases(tier):
    deep = tier == 'thorough'
    yield [[], 0]
    for h in words_upto(range(len(EDITS)), 3 if deep else 2, 1):
        for s in range(len(h) + 1) if deep else {0, len(h)}:
            yield [list(h), s]
    for h in itertools.product([0, 3, 4, 6, 8, 9, 12, 14], repeat=3):
        if not deep:
            yield [list(h), 0]
    if deep:
        for h in itertools.product([0, 1, 2, 4, 8, 10, 12, 13, 14], repeat=4):
            yield [list(h), 0]


def name(e):
    return f'{e[0]}: statements {e[1]} and {e[2]} exchange lines' if len(e) == 3 else f'{e[0]}: {e[2]} of statement {e[1]} = {e[3]!r}'


def render(case):
    return ' ; '.join(name(EDITS[i]) for i in case[0]) + f' ; questions after {case[1]} edits'


def bare(v):
    return v[1:-1] if v[:1] in ('"', "'") else v


SETTABLE = ('VarValue', 'VarValueStripped', 'Raw', 'RealRaw', 'FuncBody', 'FuncBodyStripped', 'Line')
TERMS = ('${A}', '${B} ${C}', '${D}${X}', '${PACKAGES}')


def build(env, where, files):
    for f, s in files.items():
        env.write(f'{where}/{f}', ''.join(x + '\n' for x in s))
    st = env.stash()
    got = {f: list(st.AddFile(env.path(f'{where}/{f}'))) for f in ('a_1.bb', 'a_%.bbappend')}
    st.Finalize()
    got['x.inc'] = [x for x in st.GetItemsFor() if x.Origin.endswith('x.inc')]
    return st, got


def answers(env, st, where):
    res = {}
    p = env.path(f'{where}/a_1.bb')
    res['effective values'] = st.ExpandVar(filename=p)
    res['effective values of A'] = st.ExpandVar(filename=p, attribute='VarName', attributeValue='A')
    res['effective values, not linked'] = st.ExpandVar(filename=p, nolink=True)
    for t in TERMS:
        res[f'expansion of {t}'] = st.ExpandTerm(p, t)
    res['packages'] = sorted(st.GetValidPackageNames(p))
    res['packages, stripped'] = sorted(st.GetValidPackageNames(p, strippn=True))
    res['resources'] = sorted(st.GetValidNamedResources(p))
    res['dynamic'] = sorted(st.GetPackagesDynamic(p))
    for x in ('d1x', 'd2x'):
        res[f'{x} is dynamic'] = st.IsDynamicPackage(p, x)
    res['image'] = st.IsImage(p)
    res['files'] = [x[len(env.path(where)):] for x in st.GetFiles(p, '*')]
    for v in ('Variable', None):
        # what the items are, in the order of their lines
        res[f'order ({v})'] = [(getattr(x, 'VarNameComplete', type(x).__name__), getattr(x, 'VarOp', ''), getattr(x, 'VarValueStripped', '')) for x in st.GetItemsFor(filename=p, classifier=v)]
        if v:
            res['words'] = [x.get_items() for x in st.GetItemsFor(filename=p, classifier=v)]
    return res


_want = {}


def texts(hist):
    """what the files look like after every edit"""
    now = {f: [[i, s] for i, s in enumerate(t)] for f, t in FILES.items()}
    res = [{f: [q[1] for q in t] for f, t in now.items()}]
    for h in hist:
        e = EDITS[h]
        if len(e) == 3:
            a, b = (next(p for p, q in enumerate(now[e[0]]) if q[0] == t) for t in e[1:])
            now[e[0]][a], now[e[0]][b] = now[e[0]][b], now[e[0]][a]
        elif e[2] == 'VarValue':
            for q in now[e[0]]:
                if q[0] == e[1]:
                    q[1] = FILES[e[0]][e[1]].split('"')[0] + e[3]
        res.append({f: [q[1] for q in t] for f, t in now.items()})
    return res


def run(case, env):
    from mc.engine import Obs
    hist, since = case
    # everything that adds files comes first: adding to another stash may reset what is remembered
    txt = texts(hist)
    for t in txt:
        if repr(t) not in _want:
            env.write('o/a/f.txt', '')
            _want[repr(t)] = answers(env, build(env, 'o', t)[0], 'o')
    env.write('e/a/f.txt', '')
    st, got = build(env, 'e', FILES)
    items = [x for g in got.values() for x in g]
    other = env.stash()
    other.Append(got['a_1.bb'][0])
    state = [{k: (set(v) if isinstance(v, set) else v) for k, v in x.GetAttributes().items()} for x in items]
    used = {a: {s[a] for s in state if a in s} for a in SETTABLE}
    for h in hist:
        if len(EDITS[h]) == 4:
            used[EDITS[h][2]].add(EDITS[h][3])
            if EDITS[h][2] == 'VarValue':
                used['VarValueStripped'].add(bare(EDITS[h][3]))
    n = 0
    for k in range(len(hist) + 1):
        if k:
            e = EDITS[hist[k - 1]]
            if len(e) == 3:
                x, y = got[e[0]][e[1]], got[e[0]][e[2]]
                x.Line, y.Line = y.Line, x.Line
                for z in (x, y):
                    state[items.index(z)]['Line'] = z.Line
            else:
                f, i, a, v = e
                x = got[f][i]
                setattr(x, a, v)
                same(f'{a} after it was set', getattr(x, a), v)
                d = state[items.index(x)]
                d[a] = v
                if a == 'VarValue':
                    d['VarValueStripped'] = bare(v)
                    same('words of the value', x.get_items(), bare(v).split())
                elif a == 'RealRaw':
                    same('multi-line', x.IsMultiLine(), '\\\n' in v)
                elif a == 'FuncBody':
                    d['FuncBodyStripped'] = v.replace('{', '').replace('}', '').replace('\n', '').strip()
                elif type(x).__name__ == 'Comment':
                    same('lines of the comment', x.get_items(), v.split('\n'))
            n += 1
        if k < since:
            continue
        for x, s in zip(items, state):
            same(f'attributes of {s.get("VarNameComplete", type(x).__name__)}', x.GetAttributes(), s)
        want = _want[repr(txt[k])]
        for rnd in range(2):
            have = answers(env, st, 'e')
            for q in want:
                same(q, have[q], want[q])
                n += 1
        for a in SETTABLE:
            # an empty value is the same as none
            for v in sorted(used[a] - {''}):
                w = sorted((x for x, s in zip(items, state) if a in s and s[a] == v), key=lambda x: x.Line)
                r = list(st.GetItemsFor(attribute=a, attributeValue=v))
                check([x.Line for x in r] == [x.Line for x in w] and {id(x) for x in r} == {id(x) for x in w}, f'items with {a} {v!r}: got those of line {[x.Line for x in r]}, expected {[x.Line for x in w]}')
                same(f'items of another stash with {a} {v!r}', len(other.GetItemsFor(attribute=a, attributeValue=v)), int(state[0].get(a) == v))
                n += 2
    return Obs(states=[tuple(hist[:k]) for k in range(len(hist) + 1)], transitions=n, outcome=repr(txt[-1]))
