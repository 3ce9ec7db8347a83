"""C24: result lists."""
import copy
import itertools

from mc.lib import LARGE, SIZES, check, same

ID = 'C24'
RULE = ('a case is a query and a sequence of list operations (every sequence over the listed operations up to the depth); each operation is applied to the result and to a plain '
        'list, including the operations that derive a new list, after which the derived one is worked on and the older one watched; compared are contents, return values, '
        'exceptions, the other results and the stash')
ASSUMPTIONS = ['appending or removing a list, tuple or result list means doing so for each member in turn']


def op(name, f, m=None):
    return name, f, m or f


def app(lst, x):
    """plain-list meaning of append"""
    if isinstance(x, (list, tuple)):
        for y in list(x):
            lst.append(y)
    else:
        lst.append(x)


def rem(lst, x):
    if isinstance(x, (list, tuple)):
        for y in list(x):
            lst.remove(y)
    else:
        lst.remove(x)


def setitem(a, i, x):
    a[i] = x


def delitem(a, i):
    del a[i]


def iadd(a, x):
    b = a
    b += x
    check(b is a, 'in-place addition made a new list')


def imul(a, n):
    a *= n


class Derived:
    def __init__(self, v):
        self.v = v


# (name, on the result list, on the plain list); i: the items, w: wrapper that makes a result list, o: plain counterpart
OPS = [
    op('append x', lambda a, i, w: a.append(i[0])),
    op('append [y z]', lambda a, i, w: a.append([i[1], i[2]]), lambda a, i, w: app(a, [i[1], i[2]])),
    op('append (x y)', lambda a, i, w: a.append((i[0], i[1])), lambda a, i, w: app(a, (i[0], i[1]))),
    op('append result', lambda a, i, w: a.append(w([i[3], i[0]])), lambda a, i, w: app(a, [i[3], i[0]])),
    op('append itself', lambda a, i, w: a.append(a) if len(a) < 9 else None, lambda a, i, w: app(a, list(a)) if len(a) < 9 else None),
    op('append []', lambda a, i, w: a.append([]), lambda a, i, w: None),
    op('extend [y x]', lambda a, i, w: a.extend([i[1], i[0]])),
    op('extend result', lambda a, i, w: a.extend(w([i[3]]))),
    op('extend iterator', lambda a, i, w: a.extend(x for x in (i[2], i[2]))),
    op('extend itself', lambda a, i, w: a.extend(a) if len(a) < 9 else None, lambda a, i, w: a.extend(list(a)) if len(a) < 9 else None),
    op('insert 0', lambda a, i, w: a.insert(0, i[3])),
    op('insert 1', lambda a, i, w: a.insert(1, i[0])),
    op('insert -1', lambda a, i, w: a.insert(-1, i[1])),
    op('insert 99', lambda a, i, w: a.insert(99, i[2])),
    op('remove x', lambda a, i, w: a.remove(i[0])),
    op('remove z', lambda a, i, w: a.remove(i[2])),
    op('remove [x y]', lambda a, i, w: a.remove([i[0], i[1]]), lambda a, i, w: rem(a, [i[0], i[1]])),
    op('remove (z u)', lambda a, i, w: a.remove((i[2], i[3])), lambda a, i, w: rem(a, (i[2], i[3]))),
    op('remove result', lambda a, i, w: a.remove(w([i[1]])), lambda a, i, w: rem(a, [i[1]])),
    op('remove itself', lambda a, i, w: a.remove(a), lambda a, i, w: rem(a, list(a))),
    op('pop', lambda a, i, w: a.pop()),
    op('pop 0', lambda a, i, w: a.pop(0)),
    op('pop -2', lambda a, i, w: a.pop(-2)),
    op('[0] = u', lambda a, i, w: setitem(a, 0, i[3])),
    op('[-1] = x', lambda a, i, w: setitem(a, -1, i[0])),
    op('[1:2] = y z', lambda a, i, w: setitem(a, slice(1, 2), [i[1], i[2]])),
    op('del [0]', lambda a, i, w: delitem(a, 0)),
    op('del [1:]', lambda a, i, w: delitem(a, slice(1, None))),
    op('+= [x]', lambda a, i, w: iadd(a, [i[0]])),
    op('+= (y z)', lambda a, i, w: iadd(a, (i[1], i[2]))),
    op('+= result', lambda a, i, w: iadd(a, w([i[3], i[3]]))),
    op('+= iterator', lambda a, i, w: iadd(a, iter([i[2]]))),
    op('+ [x]', lambda a, i, w: Derived(a + [i[0]])),
    op('+ result', lambda a, i, w: Derived(a + w([i[1], i[2]]))),
    op('[u] +', lambda a, i, w: Derived([i[3]] + a)),
    op('* 2', lambda a, i, w: Derived(a * 2) if len(a) < 9 else None),
    op('*= 2', lambda a, i, w: imul(a, 2) if len(a) < 9 else None),
    op('[1:]', lambda a, i, w: Derived(a[1:])),
    op('[:]', lambda a, i, w: Derived(a[:])),
    op('[::-1]', lambda a, i, w: Derived(a[::-1])),
    op('[:-1]', lambda a, i, w: Derived(a[:-1])),
    op('copy', lambda a, i, w: Derived(a.copy())),
    op('copy.copy', lambda a, i, w: Derived(copy.copy(a))),
    op('reverse', lambda a, i, w: a.reverse()),
    op('clear', lambda a, i, w: a.clear()),
    op('sort', lambda a, i, w: a.sort(key=lambda x: i.index(x))),
]
QUERIES = [
    {}, {'filename': 'r'}, {'classifier': 'Variable'}, {'filename': 'r', 'classifier': ['Variable', 'Comment']}, {'attribute': 'VarName', 'attributeValue': 'A'},
    {'filename': 'r', 'classifier': 'Variable', 'attribute': ['VarName'], 'attributeValue': ['A', 'B']}, {'classifier': 'Unset'}, {'filename': 'r', 'nolink': True},
]
BOUNDS = {
    'quick': f'all sequences of <= 3 of {len(OPS)} operations on the full result, of <= 2 on the results of the other {len(QUERIES) - 1} queries; also the same with Reduce and AddFile results; three changes of the answer of every query; every operation on lists of up to 129 items, all pairs on 9, 33 and 101',
    'thorough': f'all sequences of <= 4 of {len(OPS)} operations on the full result, of <= 3 on the others',
}


def cases(tier):
    d = 3 if tier == 'quick' else 4
    yield ['seq', 0, [], 0]
    for q in range(1, len(QUERIES)):
        for a in range(len(OPS)):
            yield ['seq', q, [a], d - 1]
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield ['seq', 0, [a, b], d]
    for n in (LARGE if tier == 'thorough' else SIZES):
        for a in range(len(OPS)):
            yield ['size', n, [a]]
    for n in (9, 33, 101):
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            yield ['size', n, [a, b]]
    for q in range(len(QUERIES)):
        yield ['other', q]
    for n in range(32):
        for m in range(3):
            yield ['answer', n, m]


def render(case):
    if case[0] == 'size':
        return f'{case[1]} items: ' + '; '.join(OPS[o][0] for o in case[2])
    if case[0] == 'answer':
        return f'query {case[1]}, change {case[2]} of its answer'
    return f'{QUERIES[case[1]]}: ' + ('; '.join(OPS[o][0] for o in case[2]) if case[0] == 'seq' else 'lists from other calls')


def attempt(f, *args):
    try:
        return 'ok', f(*args)
    except (ValueError, IndexError, TypeError) as e:
        return 'raised', type(e).__name__


def observe(what, a, m, i):
    """everything that can be read from a list"""
    same(f'{what}: content', [i.index(x) for x in a], [i.index(x) for x in m])
    same(f'{what}: length', len(a), len(m))
    same(f'{what}: truth', bool(a), bool(m))
    for x in i[:4]:
        same(f'{what}: membership', x in a, x in m)
        same(f'{what}: count', a.count(x), m.count(x))
    for k in (-2, -1, 0, 1, 3):
        g, w = attempt(a.__getitem__, k), attempt(m.__getitem__, k)
        check(g == w, f'{what}: [{k}] gives {g}, expected {w}')
    check(list(a) == m and [x for x in reversed(a)] == m[::-1] and a == m, f'{what}: iteration')


def sequence(env, st, q, seq, i, full):
    kw = {k: (env.path('r_1.bb') if k == 'filename' else v) for k, v in QUERIES[q].items()}

    def wrap(items):
        r = st.GetItemsFor()
        r.data = list(items)
        return r
    a = st.GetItemsFor(**kw)
    twin = st.GetItemsFor(**kw)
    m = list(a)
    first = list(a)
    watched = []
    for k, o in enumerate(seq):
        name, f, g = OPS[o]
        r1, v1 = attempt(f, a, i, wrap)
        r2, v2 = attempt(g, m, i, list)
        same(f'outcome of {name}', r1, r2)
        if isinstance(v1, Derived):
            watched.append((a, m))
            check(v1.v is not a, f'{name} does not give a new list')
            check(type(v1.v) is type(a), f'{name} does not give a result list')
            a, m = v1.v, v2.v
        elif r1 == 'ok':
            check(v1 is v2, f'value of {name}: {v1} instead of {v2}')
        else:
            same(f'exception of {name}', v1, v2)
        if k == len(seq) - 1:
            observe(f'after {name}', a, m, i)
    for x, y in watched:
        check(list(x) == y, 'an older list changed with a derived one')
    check(list(twin) == first, 'another result changed')
    check(list(st.GetItemsFor()) == full, 'the stash changed')
    if q:
        check(list(st.GetItemsFor(**kw)) == first, 'the query answers differently')
    return tuple(i.index(x) for x in m)


def spoil(v, how):
    """change a container that a query returned"""
    if isinstance(v, dict):
        for x in list(v.values()):
            if isinstance(x, (list, dict, set)):
                spoil(x, how)
        if how:
            v.clear()
        else:
            v['spoiled'] = 'x'
    elif isinstance(v, set):
        if how:
            v.clear()
        else:
            v.add('spoiled')
    elif how == 1:
        v.clear()
    elif how == 2:
        v.reverse()
        v.extend(v[:1])
    else:
        v.append('spoiled')


def answer(case, env):
    """the list, set or mapping that one query returns belongs to the caller: no query, this one included, answers differently after it was changed"""
    from mc.engine import Obs
    _, n, how = case
    env.write('conf/layer.conf', '')
    env.write('classes/k.bbclass', 'K = "1"\n')
    p = env.write('r_1.bb', 'A = "1 2"\nrequire o.inc\ninherit k\nPACKAGES =+ "x y"\nSRC_URI = "git://a;name=z file://b"\nPACKAGES_DYNAMIC = "^r-.*"\n')
    env.write('o.inc', 'C = "1"\n')
    b = env.write('r_%.bbappend', 'A += "3"\n')
    lone = env.write('q.bbappend', 'A += "3"\n')
    c = env.write('conf/x.conf', 'A = "1"\n')
    env.write('files/b', '')
    st = env.stash()
    for f in (p, b, lone, c):
        st.AddFile(f)
    st.Finalize()
    mine = [
        ('links', lambda: st.GetLinksForFile(p)), ('links of none', lambda: st.GetLinksForFile('')), ('recipes', st.GetRecipes), ('lone', st.GetLoneAppends), ('conf', st.GetConfFiles),
        ('classes', st.GetBBClasses), ('files', lambda: st.GetFiles(p, '*')), ('files, keyword', lambda: st.GetFiles(p, pattern='*')), ('packages', lambda: st.GetValidPackageNames(p)),
        ('packages, stripped', lambda: st.GetValidPackageNames(p, strippn=True)), ('resources', lambda: st.GetValidNamedResources(p)), ('dynamic', lambda: st.GetPackagesDynamic(p)),
        ('uri', lambda: st.GetScrComponents('git://a/b;name=z;k=v')), ('bad uri', lambda: st.GetScrComponents('http://[a')), ('split', lambda: st.SafeLineSplit('a  b c')),
        ('expand', lambda: st.ExpandVar(filename=p)), ('expand A', lambda: st.ExpandVar(filename=p, attribute='VarName', attributeValue='A')), ('expand all', lambda: st.ExpandVar()),
        ('items', st.GetItemsFor), ('items of', lambda: st.GetItemsFor(filename=p)), ('variables', lambda: st.GetItemsFor(classifier='Variable')),
        ('by name', lambda: st.GetItemsFor(filename=p, attribute='VarName', attributeValue='A')), ('reduced', lambda: st.Reduce(st.GetItemsFor(), classifier='Variable')),
        ('reduced by nothing', lambda: st.Reduce(st.GetItemsFor())), ('reduced by file', lambda: st.Reduce(st.GetItemsFor(), filename=p, nolink=True)),
        ('words', lambda: [x.get_items() for x in st.GetItemsFor(classifier='Variable')]), ('line split', lambda: st.GetItemsFor()[0].safe_linesplit('a b')),
    ]
    if n >= len(mine):
        return Obs()

    def everything():
        return [(k, copy.deepcopy(v) if not k.startswith(('items', 'variables', 'by', 'reduced')) else [id(x) for x in v], dict(v) if isinstance(v, dict) else 0) for k, v in ((k, q()) for k, q in mine)] + [
            [bool(st.IsImage(p)), bool(st.IsPackageGroup(p)), st.IsDynamicPackage(p, 'r-x'), st.ExpandTerm(p, '${A} ${C}'), st.FingerPrint]]
    before = everything()
    spoil(mine[n][1](), how)
    after = everything()
    for x, y in zip(before, after):
        check(x == y, f'after changing the answer of {mine[n][0]!r}: {y} instead of {x}')
    return Obs(states=[(mine[n][0], how)], transitions=len(mine), outcome=(n, how))


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'answer':
        return answer(case, env)
    p = env.write('r_1.bb', 'A = "1"\nB = "2"\n# c\nA += "3"\n' if case[0] != 'size' else ''.join(f'A = "{i}"\n' for i in range(case[1] - 1)))
    other = env.write('o.inc', 'C = "1"\n')
    st = env.stash()
    ret = st.AddFile(p)
    st.AddFile(other)
    i = full = list(st.GetItemsFor())
    i = list(full)
    states = []
    n = 0
    if case[0] == 'seq':
        _, q, pre, d = case
        seqs = [pre] if not d else [pre + list(s) for k in range(d - len(pre) + 1) for s in itertools.product(range(len(OPS)), repeat=k)]
        for s in seqs:
            states.append((q, sequence(env, st, q, s, i, full)))
            n += len(s)
    elif case[0] == 'size':
        if len(i) < 4:
            return Obs()
        states.append((case[1], sequence(env, st, 0, case[2], i, full)))
        n = len(case[2])
    else:
        kw = {k: (p if k == 'filename' else v) for k, v in QUERIES[case[1]].items()}
        # lists handed out or taken in by other calls are not connected with the stash either
        for how in range(8):
            before = list(st.GetItemsFor(**kw))
            if how == 0:
                lst = ret
            elif how == 1:
                lst = st.Reduce(st.GetItemsFor(), **kw)
            elif how == 2:
                src = st.GetItemsFor()
                lst = st.Reduce(src, **kw)
                check(list(src) == full, 'Reduce changed its input')
            elif how == 3:
                lst = [env.stash().AddFile(other)[0]]
                st.Append(lst)
                before = list(st.GetItemsFor(**kw))
            elif how == 4:
                lst = st.GetItemsFor(**kw).reduce(classifier='Variable')
            elif how == 5:
                lst = [x for x in st.GetItemsFor() if x not in full]
                st.Remove(lst)
                before = list(st.GetItemsFor(**kw))
            elif how == 6:
                src = st.GetItemsFor()
                lst = st.GetItemsFor(**kw)
                lst.append(src)
                src.clear()
                check(list(lst) == before + full, 'appending a result is connected with the appended one')
            else:
                lst = st.GetItemsFor(**kw)
                lst.data[:] = []
            lst.clear()
            lst.append(i[0])
            check(list(st.GetItemsFor(**kw)) == before, f'the stash changed with a list of the caller ({how})')
            st.Finalize()
            check(list(st.GetItemsFor(**kw)) == before, f'the stash changed with a list of the caller after finalizing ({how})')
            n += 1
            states.append((case[1], how))
    return Obs(states=states, transitions=n, outcome=(case[:3], len(states), states[-1]))
