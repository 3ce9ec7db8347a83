"""C19: resolution of includes and classes."""
import itertools
import os

from mc.c28 import DECOYS
from mc.lib import CLASSES, LARGE, SIZES, check, only, same

ID = 'C19'
RULE = ('a case is a directory layout (each candidate position of the wanted file is absent, a file or a directory; layers nested or not), a '
        'statement and an ignore list; the reference walks the candidates in the documented order over the layout itself; observed are the '
        'reported path, the set of parsed files, the items of every file and the statements around')
ASSUMPTIONS = ['no file appears or vanishes after it was asked for', 'layouts have no symbolic links',
               'an ignored include may be reported as an unspecific item']

# position -> directory, the recipe lies in lay/sub/rec/pkg
REC = 'w/lay/sub/rec/pkg'
POS = {'L': REC, 'P': 'w/lay/sub/rec', 'S': 'w/lay/sub', 'O': 'w/lay', 'X': 'w'}
KINDS = ['-', 'f', 'd']
NAMES = ['x.inc', 'a/x.inc', './x.inc', '../x.inc', '${BPN}.inc', 'x-${PV}.inc', 'x']
ABS = ['/x.inc', '/nothing-here/x.inc', '@/w/nothing/x.inc', '@/w/lay/sub/../x.inc', '@/w/x.inc', '@/w/lay/sub/rec/pkg/x.inc', '//nothing-here/x.inc', '@/w/lay/sub/rec/pkg']
LAYERS = ['', 'S', 'O', 'SO', 'SOX', 'L', 'P', 'LS', 'PO', 'LPX']
FOLD = ['classes', 'classes-recipe', 'classes-global']
STMT = ['inherit', 'inherit_defer', 'INHERIT +=', 'INHERIT =']
CNAMES = ['k', 'k.bbclass', '${BPN}', '${KC}'] + CLASSES
DEPTHC = {'quick': 1, 'thorough': 3}
BOUNDS = {
    'quick': f'includes: 3^5 contents of five candidate directories x {len(LAYERS)} layer layouts for one name, 3^3 x layouts for {len(NAMES)} names and both '
             'statements and from inside an included file, ignore lists; classes: 3^6 contents of six candidate folders for inherit and INHERIT, 2^6 for the other '
             'statements and names, six more folders that must not be used, all 3^3 fates of three classes in a statement with all ignore lists; chains of classes; '
             'layer roots of all files and directories of all layouts; look-alike files between file and layer; layers up to 12 directories above; absolute names of which only the end, or all, is there; up to 129 includes and classes in one file and in one statement',
    'thorough': 'as quick, with layers up to 59 directories above, 3^5 contents for every name, statement and includer, 3^6 for every class statement and name',
}


def cases(tier):
    deep = tier == 'thorough'
    for lay in LAYERS:
        for c in itertools.product(KINDS, repeat=5):
            yield ['inc', lay, ''.join(c), 0, 'require', 'bb', []]
        some = [''.join(c) for c in itertools.product(KINDS, repeat=5) if deep or (c[1] == '-' and c[4] in '-f' and c[0] != 'd')]
        for c in some:
            for n in range(len(NAMES)):
                for st in ('require', 'include'):
                    for who in ('bb', 'inc', 'append'):
                        if (n, st, who) != (0, 'require', 'bb') and (deep or st == 'require' or n < 2):
                            yield ['inc', lay, c, n, st, who, []]
    for c in ('f----', '--f--', '-----', 'd----'):
        for ign in ([], ['x.inc'], ['y.inc'], ['x.inc', 'y.inc'], ['x'], ['a/x.inc']):
            for n in (0, 1, 4):
                for st in ('require', 'include'):
                    yield ['inc', 'S', c, n, st, 'bb', ign]
    for lay in ('S', ''):
        for c in itertools.product(KINDS, repeat=6):
            for st in (0, 2):
                if lay or deep or c[1] == c[3] == c[5] == '-' or c[0] == c[2] == c[4] == 'f':
                    yield ['cls', lay, ''.join(c), st, 0, []]
        for c in itertools.product('-f' if not deep else KINDS, repeat=6):
            for st in range(len(STMT)):
                for n in range(4):
                    if (st not in (0, 2) or n) and (deep or (n in (0, 2) or c[0] == c[2] == '-')):
                        yield ['cls', lay, ''.join(c), st, n, []]
    for n in range(4, len(CNAMES)):
        for c in ('------', 'f-----', '--f---', '----f-', '-f----', '---f--', '-----f', 'f-f-f-', '-f-f-f', 'd--f--', 'ffffff'):
            for st in range(len(STMT)):
                yield ['cls', 'S', c, st, n, []]
                if n < 12:
                    yield ['cls', 'S', c, st, n, [CNAMES[n]]]
    for fates in itertools.product('mlr', repeat=3):
        for ign in itertools.product((0, 1), repeat=3):
            for st in range(len(STMT)):
                for sep in range(3):
                    yield ['multi', ''.join(fates), ['abc'[i] for i in range(3) if ign[i]], st, sep]
    for i in range(4 ** 3):
        yield ['chain', i]
    for lay in LAYERS:
        yield ['root', lay]
    for i in range(len(DECOYS)):
        for d in range(4):
            yield ['decoy', i, d]
    for n in range(1, 13 if not deep else 60):
        yield ['far', n]
    for a in range(len(ABS)):
        for lay in LAYERS:
            for st in ('require', 'include'):
                for who in ('bb', 'append'):
                    yield ['abs', a, lay, st, who]
    for n in (SIZES if not deep else LARGE):
        yield ['many', n]


def render(case):
    if case[0] == 'inc':
        return f'{case[4]} {NAMES[case[3]]} from a {case[5]}; layers at {case[1]!r} (S nearest, O outer); candidates local,parent,S,O,X: {case[2]}; ignored {case[6]}'
    if case[0] == 'cls':
        return f'{STMT[case[3]]} {CNAMES[case[4]]}; layer {case[1]!r}; local/layer x {FOLD}: {case[2]}'
    return repr(case)


def layers(env, lay):
    for p in lay:
        env.write(os.path.join(POS[p], 'conf/layer.conf'), '')


def nearest(lay, start):
    """directory of the nearest enclosing layer, by the layout"""
    d = start
    while True:
        if d in [POS[p] for p in lay]:
            return d
        if not d or d == '/':
            return None
        d = os.path.dirname(d)


def put(env, layout, name, kind, text):
    name = os.path.normpath(name)
    if kind == '-' or name in layout:
        return
    # something else may have needed the name as a directory, or the path leads over a file
    parts = name.split('/')
    if any(layout.get('/'.join(parts[:i])) == 'f' for i in range(1, len(parts))):
        return
    if any(x.startswith(name + '/') for x in layout):
        return
    layout[name] = kind
    if kind == 'd':
        os.makedirs(env.path(name), exist_ok=True)
    else:
        env.write(name, text)


def resolve(layout, cands):
    for c in cands:
        if layout.get(os.path.normpath(c)) == 'f':
            return os.path.normpath(c)
    return None


def include(case, env):
    _, lay, content, n, stmt, who, ign = case
    layers(env, lay)
    layout = {}
    name = NAMES[n]
    real = name.replace('${BPN}', 'foo').replace('${PV}', '1.0')
    incdir = REC if who != 'inc' else f'{REC}/m'
    # candidates in the directory of the includer take the place of the local ones
    dirs = [incdir, REC if who == 'inc' else POS['P'], POS['S'], POS['O'], POS['X']]
    for d, k in zip(dirs, content):
        put(env, layout, os.path.join(d, real), k, f'POSITION = "{d or "top"}"\nSECOND = "{d or "top"}"\n')
    body = f'A = "1"\n{stmt} {name}\nB = "2"\n'
    if who == 'bb':
        main = env.write(f'{REC}/foo_1.0.bb', body)
        includer = main
    elif who == 'append':
        main = env.write(f'{REC}/foo_1.0.bbappend', body)
        includer = main
    else:
        main = env.write(f'{REC}/foo_1.0.bb', 'require m/mid.inc\nC = "3"\n')
        name = name.replace('${BPN}', 'mid').replace('${PV}', '1.0')
        includer = env.write(f'{REC}/m/mid.inc', f'A = "1"\n{stmt} {name}\nB = "2"\n')
        layout[f'{REC}/m/mid.inc'] = 'f'
        if '${' in NAMES[n]:
            # names in an include refer to that file, or to nothing definite: only plain ones are checked
            return None
    root = nearest(lay, incdir)
    cands = [os.path.join(incdir, name if '${' not in name else real)]
    if root is not None:
        cands.append(os.path.join(root, real))
    want = resolve(layout, cands)
    env.CONSTANTS.OverrideConstants({'ignore': {'include': list(ign)}})
    ignored = real in ign and want is not None
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    items = st.GetItemsFor(filename=main)
    incs = [x for x in only(items, 'Include') if x.Origin == includer]
    parsed = {os.path.relpath(x.Origin, env.root) for x in st.GetItemsFor()}
    expect = {os.path.relpath(p, env.root) for p in (main, includer)}
    if want and not ignored:
        expect.add(want)
    same('parsed files', parsed, expect)
    if not ignored:
        same('number of includes', len(incs), 1)
        got = incs[0].FileIncluded
        same('reported file', os.path.relpath(os.path.normpath(got), env.root) if got else None, want)
        same('reported name', incs[0].IncName, name)
        same('reported statement', incs[0].Statement, stmt)
    pos = [x.VarValueStripped for x in st.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue='POSITION')]
    same('items of the included file', pos,
         ([resolve_dir(layout, want, dirs, real)] if want and not ignored else []))
    own = [(x.VarName, x.VarValueStripped, x.InFileLine) for x in only(items, 'Variable') if x.Origin == includer]
    same('statements around', own, [('A', '1', 1), ('B', '2', 3)])
    links = {os.path.relpath(x, env.root) for x in st.GetLinksForFile(includer)}
    same('links', links, {want} if want and not ignored else set())
    return (want, ignored)


def resolve_dir(layout, want, dirs, real):
    for d in dirs:
        if os.path.normpath(os.path.join(d, real)) == want:
            return d or 'top'
    return None


def classes(case, env):
    _, lay, content, st_, n, ign = case
    layers(env, lay)
    layout = {}
    name = CNAMES[n]
    real = {'k': 'k', 'k.bbclass': 'k', '${BPN}': 'foo', '${KC}': 'kc'}.get(name, name)
    slots = [(d, f) for f in FOLD for d in (REC, POS['S'])]
    for (d, f), k in zip(slots, content):
        put(env, layout, f'{d}/{f}/{real}.bbclass', k, f'POSITION = "{d}/{f}"\n')
    # decoys
    for d in ('w/lay/classes', 'w/classes', f'{POS["S"]}/class', f'{REC}/recipes/classes', 'w/lay/sub/rec/classes', f'{POS["S"]}/rec'):
        put(env, layout, f'{d}/{real}.bbclass', 'f', f'POSITION = "{d}"\n')
    put(env, layout, f'{REC}/{real}.bbclass', 'f', 'POSITION = "decoy"\n')
    glob = STMT[st_].startswith('INHERIT')
    cands = []
    root = nearest(lay, REC)
    for f in FOLD:
        if glob and f == 'classes-recipe':
            continue
        cands.append(f'{REC}/{f}/{real}.bbclass')
        if root:
            cands.append(f'{root}/{f}/{real}.bbclass')
    want = resolve(layout, cands)
    q = '"' if glob else ''
    main = env.write(f'{REC}/foo_1.0.bb', f'KC = "kc"\nA = "1"\n{STMT[st_]} {q}{name}{q}\nB = "2"\n')
    st = env.stash()
    # the value of KC is only known to the stash once the file is there
    if n == 3:
        st.AddFile(env.write(f'{REC}/foo_1.0.inc', ''))
    st.AddFile(main)
    st.Finalize()
    items = st.GetItemsFor(filename=main)
    inh = only(items, 'Inherit')
    same('number of inherits', len(inh), 1)
    if n == 3:
        # at that point the variable is not in the stash yet: nothing may be made up
        check({x for x in inh[0].FilePaths} <= {env.path(want)} if want else not inh[0].FilePaths, 'made up class')
        return 'own variable'
    same('reported files', sorted(os.path.relpath(x, env.root) for x in inh[0].FilePaths), [want] if want else [])
    same('parsed files', {os.path.relpath(x.Origin, env.root) for x in st.GetItemsFor()},
         {f'{REC}/foo_1.0.bb'} | ({want} if want else set()))
    same('items of the class', [x.VarValueStripped for x in st.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue='POSITION')],
         [os.path.dirname(want)] if want else [])
    same('statements around', [(x.VarName, x.InFileLine) for x in only(items, 'Variable') if x.Origin == main], [('KC', 1), ('A', 2), ('B', 4)])
    same('links', [os.path.relpath(x, env.root) for x in st.GetLinksForFile(main)], [want] if want else [])
    same('classes in the stash', [os.path.relpath(x, env.root) for x in st.GetBBClasses()], [want] if want else [])
    return want


def multi(case, env):
    _, fates, ign, st_, sep = case
    layers(env, 'S')
    want = []
    for c, fate in zip('abc', fates):
        if fate == 'l':
            env.write(f'{REC}/classes/{c}.bbclass', f'V{c} = "1"\n')
        elif fate == 'r':
            env.write(f'{POS["S"]}/classes-global/{c}.bbclass', f'V{c} = "1"\n')
        if c not in ign and fate != 'm':
            want.append(f'{REC}/classes/{c}.bbclass' if fate == 'l' else f'{POS["S"]}/classes-global/{c}.bbclass')
    env.CONSTANTS.OverrideConstants({'ignore': {'classes': list(ign)}})
    glob = STMT[st_].startswith('INHERIT')
    names = [' '.join('abc'), 'a  b\tc', 'a.bbclass b c.bbclass'][sep]
    q = '"' if glob else ''
    main = env.write(f'{REC}/foo_1.0.bb', f'A = "1"\n{STMT[st_]} {q}{names}{q}\nB = "2"\n')
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    items = st.GetItemsFor(filename=main)
    inh = only(items, 'Inherit')
    same('number of inherits', len(inh), 1)
    same('reported files', {os.path.relpath(x, env.root) for x in inh[0].FilePaths}, set(want))
    same('words', inh[0].get_items(), names.split())
    same('links', [os.path.relpath(x, env.root) for x in st.GetLinksForFile(main)], sorted(want))
    same('items', [(x.VarName, x.Line) for x in only(items, 'Variable')],
         [('A', 1)] + [(f'V{os.path.basename(w)[0]}', 3 + i) for i, w in enumerate(want)] + [('B', 3 + len(want))])
    return tuple(want)


CHAIN = ['m', 'w/lay/sub/classes', 'w/lay/classes', 'w/lay/sub/classes/classes']


def chain(case, env):
    """foo inherits a, a inherits b, b requires c.inc: each relative to its own file and layer"""
    i = case[1]
    pa, pb, pc = i % 4, i // 4 % 4, i // 16
    layers(env, 'SO')
    layout = {}
    if pa:
        put(env, layout, f'{CHAIN[pa]}/a.bbclass', 'f', 'VA = "1"\ninherit b\nVA2 = "1"\n')
    if pb:
        put(env, layout, f'{CHAIN[pb]}/b.bbclass', 'f', 'VB = "1"\nrequire c.inc\nVB2 = "1"\n')
    if pc:
        put(env, layout, f'{CHAIN[pc]}/c.inc', 'f', 'VC = "1"\n')

    def cls(name, frm):
        root = nearest('SO', frm)
        return resolve(layout, [f'{d}/{f}/{name}.bbclass' for f in FOLD for d in (frm, root)])
    a = cls('a', REC)
    b = cls('b', os.path.dirname(a)) if a else None
    c = resolve(layout, [f'{os.path.dirname(b)}/c.inc', f'{nearest("SO", os.path.dirname(b))}/c.inc']) if b else None
    main = env.write(f'{REC}/foo_1.0.bb', 'inherit a\nB = "2"\n')
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    names = [x.VarName for x in only(st.GetItemsFor(filename=main), 'Variable')]
    want = ['VA'] * bool(a) + ['VB'] * bool(b) + ['VC'] * bool(c) + ['VB2'] * bool(b) + ['VA2'] * bool(a) + ['B']
    same('variables in order', names, want)
    same('parsed files', {os.path.relpath(x.Origin, env.root) for x in st.GetItemsFor()}, {x for x in (a, b, c) if x} | {f'{REC}/foo_1.0.bb'})
    return tuple(names)


def absolute(case, env):
    """absolute names mean that file and no other"""
    _, a, lay, stmt, who = case
    layers(env, lay)
    there = {}
    for d in POS.values():
        for e in ('x.inc', 'nothing-here/x.inc', 'inc/x.inc'):
            there[env.write(f'{d}/{e}', f'POSITION = "{d}/{e}"\n')] = f'{d}/{e}'
    name = ABS[a].replace('@', env.root.rstrip('/'))
    main = env.write(f'{REC}/foo_1.0.{"bb" if who == "bb" else "bbappend"}', f'A = "1"\n{stmt} {name}\nB = "2"\n')
    want = there.get(os.path.normpath(name))
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    inc = only(st.GetItemsFor(filename=main), 'Include')
    same('includes', [(x.IncName, x.Statement) for x in inc], [(name, stmt)])
    same('reported file', os.path.relpath(os.path.normpath(inc[0].FileIncluded), env.root) if inc[0].FileIncluded else None, want)
    same('values', [x.VarValueStripped for x in only(st.GetItemsFor(), 'Variable')], ['1', *([want] if want else []), '2'])
    return want


def many(case, env):
    """many classes in one statement, many includes in one file"""
    n = case[1]
    layers(env, 'S')
    for i in range(n):
        env.write(f'{REC}/classes/c{i}.bbclass' if i % 3 else f'{POS["S"]}/classes-global/c{i}.bbclass', f'C{i} = "1"\n')
        env.write(f'{REC}/i{i}.inc' if i % 3 != 1 else f'{POS["S"]}/i{i}.inc', f'I{i} = "1"\n')
    cls = [f'{REC}/classes/c{i}.bbclass' if i % 3 else f'{POS["S"]}/classes-global/c{i}.bbclass' for i in range(n)]
    inc = [f'{REC}/i{i}.inc' if i % 3 != 1 else f'{POS["S"]}/i{i}.inc' for i in range(n)]
    main = env.write(f'{REC}/foo_1.0.bb', 'inherit ' + ' '.join(f'c{i}' for i in range(n)) + '\n' + ''.join(f'require i{i}.inc\n' for i in range(n)) + 'B = "2"\n')
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    items = st.GetItemsFor(filename=main)
    inh = only(items, 'Inherit')
    same('words', [x.get_items() for x in inh], [[f'c{i}' for i in range(n)]])
    same('reported classes', sorted(os.path.relpath(x, env.root) for x in inh[0].FilePaths), sorted(cls))
    same('reported includes', [os.path.relpath(x.FileIncluded, env.root) for x in sorted(only(items, 'Include'), key=lambda x: x.InFileLine)], inc)
    same('links', sorted(os.path.relpath(x, env.root) for x in st.GetLinksForFile(main)), sorted(cls + inc))
    same('variables', sorted(x.VarName for x in only(items, 'Variable')), sorted([f'C{i}' for i in range(n)] + [f'I{i}' for i in range(n)] + ['B']))
    same('classes of the stash', sorted(os.path.relpath(x, env.root) for x in st.GetBBClasses()), sorted(cls))
    return n


def root(case, env):
    lay = case[1]
    layers(env, lay)
    st = env.stash()
    out = []
    for d in ('w/lay/sub/rec/pkg', 'w/lay/sub/rec', 'w/lay/sub', 'w/lay', 'w/lay/sub/conf', 'w/lay/other/deep'):
        f = env.write(f'{d}/some_1.bb', 'A = "1"\n')
        r = nearest(lay, d)
        want = env.path(r).rstrip('/') if r is not None else ''
        same(f'layer of {d}/some_1.bb', st.GetLayerRoot(f), want)
        same(f'layer of the directory {d}', st.GetLayerRoot(env.path(d)), want)
        out.append(want)
    same('layer of a file that is not there', st.GetLayerRoot('/nonexistent-dir/x/foo.bb'), '')
    return tuple(os.path.relpath(x, env.root) if x else '' for x in out)


def decoy(case, env):
    """files that mean nothing to the search for the layer"""
    _, i, depth = case
    mid = [POS['O'] + ''.join(f'/s{k}' for k in range(d + 1)) for d in range(depth)]
    layers(env, 'O')
    for s in mid:
        env.write(f'{s}/{DECOYS[i]}', 'ZZ = "1"\n')
    env.write(POS['O'] + '/a/x.inc', 'VX = "1"\n')
    env.write(POS['O'] + '/classes/kq.bbclass', 'VK = "1"\n')
    env.write('w/a/y.inc', 'VY = "1"\n')
    main = env.write((mid[-1] if mid else POS['O']) + '/foo_1.0.bb', 'require a/x.inc\ninherit kq\nrequire a/y.inc\nB = "2"\n')
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    same('variables', [x.VarName for x in only(st.GetItemsFor(filename=main), 'Variable')], ['VX', 'VK', 'B'])
    same('layer', st.GetLayerRoot(main).rstrip('/'), env.path(POS['O']))
    return tuple(case)


def far(case, env):
    """a layer many directories above"""
    n = case[1]
    layers(env, 'O')
    d = POS['O'] + ''.join(f'/s{k}' for k in range(n))
    env.write(POS['O'] + '/a/x.inc', 'VX = "1"\n')
    env.write(POS['O'] + '/classes/kq.bbclass', 'VK = "1"\n')
    main = env.write(d + '/foo_1.0.bb', 'require a/x.inc\ninherit kq\nB = "2"\n')
    st = env.stash()
    st.AddFile(main)
    st.Finalize()
    same('variables', [x.VarName for x in only(st.GetItemsFor(filename=main), 'Variable')], ['VX', 'VK', 'B'])
    same('layer', st.GetLayerRoot(main).rstrip('/'), env.path(POS['O']))
    return n


def run(case, env):
    from mc.engine import Obs
    env.wipe()
    env.reset_constants()
    try:
        out = {'abs': absolute, 'many': many, 'decoy': decoy, 'far': far, 'inc': include, 'cls': classes, 'multi': multi, 'chain': chain, 'root': root}[case[0]](case, env)
    finally:
        env.reset_constants()
    return Obs(states=[(case[0], case[1:3])], transitions=4, outcome=(case[0], out))
