"""C09: filters."""
import itertools

from mc.lib import LARGE, check, same

ID = 'C09'
RULE = ('a case is a stash scenario and a first query; inside, every second query is applied to the whole stash, as a copying reduction '
        'and as an in-place reduction of the first result, and every third query of a smaller set as a further in-place reduction; the '
        'reference selects items with the public attributes of the item alone')
ASSUMPTIONS = ['criteria are strings, numbers or truth values, or lists, tuples or sets of them', 'linked files are those one include or bbappend away']

MAIN = '''# head
require x.inc
A = "1"
A:append = "2"
B = "1"
do_x() {
    a
}
python do_x:append() {
    b
}
A[doc] = "1"
unset A
unset A[doc]
def A(d):
    pass

export A = "1"
inherit A
addtask do_x after A
EXPORT_FUNCTIONS A
'''
INC = 'A = "inc"\nC = "1"\n# head\ndo_x() {\n    c\n}\n'
APP = 'A = "app"\nC:remove = "1"\n# tail\n'
BAR = 'A = "1"\nB = "2"\nrequire x.inc\n\n# head\n'
SCEN = {
    'one': ['foo_1.0.bb'],
    'append': ['foo_1.0.bb', 'foo_%.bbappend'],
    'append-first': ['foo_%.bbappend', 'foo_1.0.bb'],
    'two': ['foo_1.0.bb', 'bar.bb'],
    'twice': ['bar.bb', 'bar.bb'],
    'all': ['bar.bb', 'foo_%.bbappend', 'foo_1.0.bb', 'zz.bbappend'],
}
TEXT = {'foo_1.0.bb': MAIN, 'foo_%.bbappend': APP, 'bar.bb': BAR, 'x.inc': INC, 'zz.bbappend': 'A = "zz"\n'}
FILES = [None, 'foo_1.0.bb', 'x.inc', 'foo_%.bbappend', 'bar.bb', 'nothing.bb']
CLS = [None, 'Variable', ['Variable'], ('Variable', 'Unset'), ['Function', 'Comment', 'Variable'], ['set', 'Variable', 'FlagAssignment'],
       'Nothing', [], 'Comment', ('PythonBlock', 'Export', 'TaskAdd')]
ATT = [None, 'VarName', ['VarName', 'FuncName'], ('Flag',), ['set', 'Name', 'VarName'], 'SubItem', 'Nothing', 'VarValueStripped', [],
       ('Nothing', 'VarValue'), 'IsPython']
VAL = [None, 'A', ['A', 'B'], ('do_x',), ['set', 'C', '1'], 'append', 'zz', [], ('"1"', 'doc', 'zz')]
NOL = [False, True]


def val(v):
    return set(v[1:]) if isinstance(v, (list, tuple)) and v and v[0] == 'set' else v


ALL = [q for q in itertools.product(FILES, CLS, ATT, VAL, NOL) if not (q[3] and not q[2])]
SUB = [q for q in itertools.product([None, 'foo_1.0.bb', 'x.inc'], [None, 'Variable', ['Function', 'Comment', 'Variable'], ('Variable', 'Unset')],
                                    [None, 'VarName', ['VarName', 'FuncName'], 'VarValueStripped'],
                                    [None, ['A', 'B'], ('do_x',), ['set', 'C', '1']], NOL) if not (q[3] and not q[2])]
SUB = SUB[::3]
THIRD = SUB[::3]
CHUNK = 40
# criteria with many alternatives: the ones that count stand first, in the middle, last
PADS = [1, 15, 63, 64, 65, 100, 130, 260]


def pad(names, n, where, kind):
    fill = [f'Zz{i:03}' if i % 2 else f'0no{i:03}' for i in range(n)]
    at = {'first': 0, 'mid': n // 2, 'last': n, 'sorted': 0}[where]
    res = fill[:at] + list(names) + fill[at:]
    if where == 'sorted':
        res.sort()
    return {'list': list, 'tuple': tuple, 'set': lambda x: ['set', *x]}[kind](res)


BIGQ = [(f, c, a, v, nol) for f in (None, 'foo_1.0.bb') for nol in NOL for c in (None, ['Variable', 'Comment'], ['Function'])
        for a, v in ((None, None), (['VarName', 'FuncName'], None), (['VarName', 'FuncName'], ['A', 'do_x']), (['VarValueStripped', 'Flag'], ['1', 'doc']))]

# attributes that are no strings, and values of any type
TATT = ['Line', 'InFileLine', 'IsFromClass', 'SubItems', 'IsPython', ['Line', 'VarName'], 'IsNewStyleOverrideSyntax', 'InlineBlocks', 'VarValueStripped', 'OverrideDelimiter']
TVAL = [1, '1', 2, '2', True, 'True', False, 'False', 0, '', [1, '3'], ('2', 5), 1.0, '1.0', ' 1', '1 ', 'a', 'A', 'a_', '"1"', [1, 1, 1], "[]", "['append']", [False, 'A'], [2, 'Aa'], 'AA', ':', '_', '.*', '1|2', '*']
NITEMS = LARGE


BOUNDS = {
    'quick': f'{len(SCEN)} stash scenarios, finalized or not, x all combinations of {len(FILES)} files, {len(CLS)} kind, {len(ATT)} attribute and '
             f'{len(VAL)} value criteria and link handling; pairs of them from a sub-set of 96 and 32 third reductions, given lists plain, '
             f'doubled and reversed; criteria with up to {max(PADS)} further alternatives; {len(TATT)} attributes x {len(TVAL)} values of any type; stashes of up to {max(NITEMS)} items',
    'thorough': 'as quick with pairs from the full set of criteria for every fourth first query',
}


def cases(tier):
    for s in SCEN:
        for fin in (1, 0):
            for i in range(0, len(ALL), CHUNK):
                yield ['single', s, fin, i]
    for s in SCEN:
        for q1 in SUB:
            yield ['pair', s, 1, q1]
    for s in SCEN:
        for n in range(len(PADS)):
            yield ['pads', s, 1, n]
    for s in SCEN:
        yield ['typed', s, 1, 0]
    for n in NITEMS:
        yield ['large', 'one', 0, n]
    if tier == 'thorough':
        for s in SCEN:
            for q1 in ALL[::4]:
                yield ['full', s, 1, q1]


def render(case):
    return f'{case[1]}: {SCEN[case[1]]}, finalized={bool(case[2])}, query {ALL[case[3]] if case[0] == "single" else case[3]} ({case[0]})'


def links(scen, f):
    res = {f}
    if f in ('foo_1.0.bb', 'bar.bb') and f in SCEN[scen]:
        res.add('x.inc')
    if f == 'foo_1.0.bb' and f in SCEN[scen] and 'foo_%.bbappend' in SCEN[scen]:
        res.add('foo_%.bbappend')
    return res


MISSING = object()


def aslist(v):
    v = val(v)
    if v is None:
        return []
    return list(v) if isinstance(v, (list, tuple, set)) else [v]


def match(env, scen, x, q):
    f, cls, att, v, nol = q
    if f:
        ok = {env.path(y) for y in ({f} if nol else links(scen, f))}
        if x.Origin not in ok:
            return False
    if aslist(cls) and x.CLASSIFIER not in aslist(cls):
        return False
    if aslist(att):
        vals = [getattr(x, a, MISSING) for a in aslist(att)]
        vals = [y for y in vals if y is not MISSING]
        if not vals:
            return False
        if aslist(v) and not any(y in aslist(v) for y in vals):
            return False
    return True


def kw(env, q):
    f, cls, att, v, nol = q
    res = {}
    if f is not None:
        res['filename'] = env.path(f)
    if cls is not None:
        res['classifier'] = val(cls)
    if att is not None:
        res['attribute'] = val(att)
    if v is not None:
        res['attributeValue'] = val(v)
    if nol:
        res['nolink'] = True
    return res


def verify(what, got, want):
    same(f'{what}: number of items', len(got), len(want))
    same(f'{what}: items', sorted(id(x) for x in got), sorted(id(x) for x in want))
    lines = [x.Line for x in got]
    check(lines == sorted(lines), f'{what}: not ordered by line: {lines}')


def large(size, env):
    from mc.engine import Obs
    kinds = ['V{i} = "{i}"\n', '# c{i}\n', 'do_{i}() {{\n    a\n}}\n', 'A:append = "{i}"\n', '\n', 'V{i}[f] = "{i}"\n', 'A = "{i}"\n']
    f = env.write('foo_1.0.bb', ''.join(kinds[i % 7 if i % 11 else 6].format(i=i) for i in range(size)))
    g = env.write('bar.bb', ''.join(kinds[i % 5].format(i=i) for i in range(size)))
    st = env.stash()
    res = list(st.AddFile(f)) + list(st.AddFile(g))
    n = 0
    for q in [(x, c, a, v, nol) for x in (None, 'foo_1.0.bb', 'bar.bb') for nol in NOL for c in (None, 'Variable', ('Comment', 'Function'))
              for a, v in ((None, None), ('VarName', None), ('VarName', 'A'), (('VarName', 'FuncName'), [f'V{i}' for i in range(size)] + ['A']), ('VarName', f'V{size - 1}'), ('SubItem', 'append'))]:
        exp = [x for x in res if match(env, 'one', x, q)]
        verify(f'query {q[:2]} ...', list(st.GetItemsFor(**kw(env, q))), exp)
        verify(f'Reduce {q[:2]} ...', st.Reduce(list(reversed(res)), **kw(env, q)), exp)
        verify(f'reduce {q[:2]} ...', list(st.GetItemsFor().reduce(**kw(env, q))), exp)
        n += 3
    env.clear_caches()
    return Obs(states=[('large', size)], transitions=n, outcome=('large', size, len(res)))


def run(case, env):
    from mc.engine import Obs
    how, scen, fin, arg = case
    if how == 'large':
        return large(arg, env)
    for n, t in TEXT.items():
        env.write(n, t)
    st = env.stash()
    items = []
    for f in SCEN[scen]:
        st.AddFile(env.path(f))
    if fin:
        st.Finalize()
    items = list(st.GetItemsFor())
    # what is there, independent of the filters: by file
    raw = sorted((x.RealRaw, x.Origin) for x in items)
    want = []
    for f in SCEN[scen]:
        for g in [f] + (['x.inc'] if f in ('foo_1.0.bb', 'bar.bb') else []):
            want += [(x.RealRaw, x.Origin) for x in env.stash().AddFile(env.path(g))]
    # the include is parsed with each of the including files
    same('all items', raw, sorted(want))
    n = 0
    outs = []
    if how == 'single':
        for q in ALL[arg:arg + CHUNK]:
            if not fin and q[0] and not q[4]:
                continue
            exp = [x for x in items if match(env, scen, x, q)]
            verify(f'query {q}', list(st.GetItemsFor(**kw(env, q))), exp)
            given = list(items)
            verify(f'Reduce {q}', st.Reduce(given, **kw(env, q)), exp)
            same('given list after Reduce', [id(x) for x in given], [id(x) for x in items])
            n += 2
            outs.append((tuple(map(repr, q)), len(exp)))
        return Obs(states=outs, transitions=n, outcome=tuple(outs))
    if how == 'typed':
        for f, a, v in itertools.product((None, 'foo_1.0.bb'), TATT, TVAL):
            if v == '' or v == 0 or v is False:
                # no restriction, as documented for values left out
                continue
            q = (f, None, a, v, False)
            exp = [x for x in items if match(env, scen, x, q)]
            verify(f'query {q}', list(st.GetItemsFor(**kw(env, q))), exp)
            verify(f'Reduce {q}', st.Reduce(list(items), **kw(env, q)), exp)
            n += 2
            outs.append((repr(q), len(exp)))
        return Obs(states=outs, transitions=n, outcome=tuple(outs))
    if how == 'pads':
        for (f, c, a, v, nol), where, kind in itertools.product(BIGQ, ('first', 'mid', 'last', 'sorted'), ('list', 'tuple', 'set')):
            small = (f, c, a, v, nol)
            exp = [x for x in items if match(env, scen, x, small)]
            big = (f, *(y and pad(y, PADS[arg], where, kind) for y in (c, a, v)), nol)
            what = f'query {small} with {PADS[arg]} more alternatives {where}'
            verify(what, list(st.GetItemsFor(**kw(env, big))), exp)
            verify(f'Reduce, {what}', st.Reduce(list(items), **kw(env, big)), exp)
            verify(f'reduce, {what}', list(st.GetItemsFor().reduce(**kw(env, big))), exp)
            n += 3
            outs.append((repr(small), where, kind, len(exp)))
        return Obs(states=[(scen, *o) for o in outs], transitions=n, outcome=(PADS[arg], tuple(outs)))
    q1 = arg
    first = [x for x in items if match(env, scen, x, q1)]
    for q2 in (SUB if how == 'pair' else ALL):
        exp = [x for x in first if match(env, scen, x, q2)]
        l1 = st.GetItemsFor(**kw(env, q1))
        verify(f'query {q1}', list(l1), first)
        before = [id(x) for x in l1]
        for name, given in (('plain', l1), ('doubled', list(l1) + list(l1)), ('reversed', tuple(reversed(list(l1))))):
            c = st.Reduce(given, **kw(env, q2))
            verify(f'Reduce {name} {q1} then {q2}', c, exp)
            n += 1
        same('list after copying Reduce', [id(x) for x in l1], before)
        other = st.GetItemsFor(**kw(env, q1))
        r = l1.reduce(**kw(env, q2))
        check(r is l1, 'reduce does not return the list')
        verify(f'reduce {q1} then {q2}', list(l1), exp)
        same('other result after reduce', [id(x) for x in other], before)
        outs.append((repr(q2), len(exp)))
        n += 2
        if how == 'pair':
            for q3 in THIRD:
                e3 = [x for x in exp if match(env, scen, x, q3)]
                l3 = l1.copy().reduce(**kw(env, q3))
                verify(f'reduce {q1} then {q2} then {q3}', list(l3), e3)
                n += 1
            verify('list after reducing a copy', list(l1), exp)
    same('stash after reductions', sorted(id(x) for x in st.GetItemsFor()), sorted(id(x) for x in items))
    return Obs(states=[(repr(q1), o) for o in outs], transitions=n, outcome=(repr(q1), tuple(outs)))
