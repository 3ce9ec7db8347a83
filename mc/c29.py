"""C29: a file is the same file however its path is written."""
import itertools
import os

from mc.lib import check, only, queries, same

ID = 'C29'
RULE = ('a case is a working directory, a sequence of files to add with a spelling of the path for each, and a spelling for every include statement; or a file with a '
        'line offset and a forced link; the reference is a stash of the same history under the plain absolute paths and names, and the layout itself for origins')
ASSUMPTIONS = ['no symbolic links; a path does not start with two slashes', 'queries name files by their absolute path, as documented',
               'the text of an include statement and the fields derived from it are not compared between spellings']

DIRS = ['.', 'r', 'app/deep', 'decoy']
# spellings of the path to add: the plain one, relative to the working directory, and with redundant parts
SPELL = ['{abs}', '{rel}', './{rel}', '{absdir}/./{base}', '{absdir}/../{dir}/{base}', '{absdir}//{base}', '{reldir}/../{dir}/{base}', '{reldir}//./{base}', '{root}/./r/../{name}',
         '{root}/nothing/../{name}']
FILES = ['r/foo_1.0.bb', 'app/foo_%.bbappend', 'r/bar_2.bb', 'r/z.conf', 'r/x.inc', 'classes/k.bbclass', 'r/none.bb']
# spellings inside the statements; the recipe is in r, the layer root is above
INC1 = ['x.inc', './x.inc', '../r/x.inc', 'r/x.inc', 'r/../r/./x.inc', './/x.inc', '../conf/../r/x.inc', '${THISDIR}/x.inc', './././x.inc']
INC2 = ['../inc/y.inc', 'inc/y.inc', './../inc/y.inc', '..//inc//y.inc', 'inc/./y.inc', '../r/../inc/y.inc']
BACK = ['', '../r/x.inc', 'r/x.inc', './../r/../r/x.inc', '../inc/y.inc', './y.inc']
BOUNDS = {
    'quick': f'{len(DIRS)} working directories x all sequences of <= 2 of {len(FILES)} files x all of {len(SPELL)} spellings for one or all of them; {len(INC1)} x {len(INC2)} x {len(BACK)} '
             'spellings of includes (with cycles) x 3 orders; 7 files x 4 offsets x 4 forced links x 3 orders',
    'thorough': 'as quick, with sequences of 3 files and all orders',
}
OFFS = [0, 1, 7, 1000]
LINK = ['', 'r/foo_1.0.bb', 'r/bar_2.bb', 'r/z.conf']


def cases(tier):
    deep = tier == 'thorough'
    for d in range(len(DIRS)):
        for n in ((1, 2, 3) if deep else (1, 2)):
            for fs in itertools.product(range(len(FILES)), repeat=n):
                for sp in itertools.product(range(len(SPELL)), repeat=n):
                    # at most two different spellings, one of them plain or the same for all
                    if len({x for x in sp if x}) > 1 or (n == 3 and d > 1):
                        continue
                    yield ['add', d, list(fs), list(sp)]
    for i, j, k in itertools.product(range(len(INC1)), range(len(INC2)), range(len(BACK))):
        for o in itertools.permutations(range(3)) if deep else ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
            yield ['inc', i, j, k, list(o)]
    for f in range(len(FILES)):
        for off in OFFS:
            for ln in range(len(LINK)):
                for o in range(3):
                    yield ['opt', f, off, ln, o]


def render(case):
    if case[0] == 'add':
        return f'in {DIRS[case[1]]}: add ' + ', '.join(f'{FILES[f]} as {SPELL[s]}' for f, s in zip(case[2], case[3]))
    if case[0] == 'inc':
        return f'foo requires {INC1[case[1]]!r}, x.inc requires {INC2[case[2]]!r}, y.inc requires {BACK[case[3]]!r}, order {case[4]}'
    return f'{FILES[case[1]]} with offset {case[2]}, linked to {LINK[case[3]]!r}, order {case[4]}'


def layout(env, inc1='x.inc', inc2='../inc/y.inc', back=''):
    w = env.write
    w('conf/layer.conf', 'L = "1"\n')
    w('r/foo_1.0.bb', f'A = "1"\nrequire {inc1}\ninherit k\nF = "${{X}} ${{PN}}"\nSRC_URI = "file://a"\n')
    w('r/bar_2.bb', 'A = "bar"\n\nrequire x.inc\nG = "${Y}"\n')
    w('r/x.inc', f'X = "x"\nrequire {inc2}\nX2 = "${{A}}"\n')
    w('inc/y.inc', 'Y = "y"\n' + (f'include {back}\n' if back else '') + 'Y2 = "${X}"\n')
    w('classes/k.bbclass', 'K = "1"\nK_append = " 2"\n')
    w('app/foo_%.bbappend', f'A_append = "app"\nrequire ../r/z.conf\ninherit k\n')
    w('r/z.conf', 'Z = "1"\n')
    # nothing of this is ever meant
    w('decoy/conf/layer.conf', '')
    for n in ('x.inc', 'r/x.inc', 'inc/y.inc', 'classes/k.bbclass', 'y.inc', 'r/z.conf', 'r/foo_1.0.bb', 'r/bar_2.bb'):
        w('decoy/' + n, 'DECOY = "1"\n')
        w('app/deep/' + n, 'DECOY = "1"\n')
    os.makedirs(env.path('nothing'), exist_ok=True)


def spelled(env, name, s, cwd):
    p = env.path(name)
    d, b = os.path.split(p)
    return SPELL[s].format(abs=p, rel=os.path.relpath(p, cwd), absdir=d, reldir=os.path.relpath(d, cwd), base=b, dir=os.path.basename(d), root=env.root, name=name)


SKIP = ('include', 'require')


def ids(items):
    return [((type(x).__name__,) if x.RealRaw.startswith(SKIP) else x.RealRaw, x.Origin, x.Line, x.InFileLine, sorted(x.IncludedFrom)) for x in items]


def view(env, st):
    fs = [env.path(f) for f in ('r/foo_1.0.bb', 'r/x.inc', 'inc/y.inc', 'app/foo_%.bbappend', 'decoy/x.inc')]
    return {n: q() for n, q in queries(st, fs, ids, terms=('${A} ${F} ${G} ${FILE} ${THISDIR}',), names=('foo-x',))}


def provenance(env, st):
    """origins are the plain absolute paths of real files of the layout"""
    known = {env.path(f) for f in (*FILES, 'inc/y.inc')}
    for x in st.GetItemsFor():
        check(x.Origin in known, f'unexpected origin {x.Origin}')
        same(f'IsFromClass of {x.Origin}', x.IsFromClass, x.Origin.endswith('.bbclass'))
        same(f'IsFromAppend of {x.Origin}', x.IsFromAppend(), x.Origin.endswith('.bbappend'))
        with open(x.Origin) as i:
            check(x.RealRaw in i.read(), f'{x.RealRaw!r} is not in {x.Origin}')
    for x in only(st.GetItemsFor(), 'Include'):
        check(os.path.normpath(x.FileIncluded) in known, f'{x.RealRaw!r} included {x.FileIncluded!r}')
    for x in only(st.GetItemsFor(), 'Inherit'):
        same(f'paths of {x.RealRaw!r}', {os.path.normpath(y) for y in x.FilePaths}, {env.path('classes/k.bbclass')})


def build(env, adds):
    st = env.stash()
    out = []
    for p in adds:
        out.append(ids(st.AddFile(p)))
    mid = view(env, st)
    fp = st.FingerPrint
    st.Finalize()
    provenance(env, st)
    return out, mid, fp, view(env, st)


def compare(what, got, ref, fingerprint=True):
    same(f'{what}: returned items', got[0], ref[0])
    for i, when in ((1, 'before'), (3, 'after')):
        for k in ref[i]:
            same(f'{what}: {k} {when} finalizing', got[i][k], ref[i][k])
    if fingerprint:
        same(f'{what}: fingerprint', got[2], ref[2])


REF = {}


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'inc':
        _, i, j, k, order = case
        names = [FILES[x] for x in order]
        # the cycle is the same whatever it is called
        back = '' if not BACK[k] else '../r/x.inc' if 'x.inc' in BACK[k] else '../inc/y.inc'
        layout(env, back=back)
        ref = build(env, [env.path(n) for n in names])
        env.clear_caches()
        layout(env, INC1[i], INC2[j], BACK[k])
        got = build(env, [env.path(n) for n in names])
        compare(render(case), got, ref, fingerprint=False)
        return Obs(states=[tuple(case[1:4])], transitions=2 * len(ref[1]), outcome=repr(ref[3]['items']).replace(env.root, ''))
    layout(env)
    if case[0] == 'add':
        _, d, fs, sp = case
        names = [FILES[x] for x in fs]
        key = (env.root, tuple(fs))
        if key not in REF:
            REF[key] = build(env, [env.path(n) for n in names])
            env.clear_caches()
        ref = REF[key]
        cwd = os.path.normpath(env.path(DIRS[d]))
        os.makedirs(cwd, exist_ok=True)
        back = os.getcwd()
        os.chdir(cwd)
        try:
            got = build(env, [spelled(env, n, s, cwd) for n, s in zip(names, sp)])
        finally:
            os.chdir(back)
        compare(render(case), got, ref)
        return Obs(states=[(d, tuple(fs), tuple(sp))], transitions=2 * len(ref[1]) + 2 * len(fs), outcome=repr(ref[3]['items']).replace(env.root, ''))
    _, f, off, ln, order = case
    name = FILES[f]
    p = env.path(name)
    plain = env.stash()
    first = plain.AddFile(p)
    ref = sorted((x.Origin, x.RealRaw, x.Line + off, x.InFileLine) for x in plain.GetItemsFor())
    env.clear_caches()
    st = env.stash()
    target = env.path(LINK[ln]) if ln else None
    if target == p:
        return Obs()
    if order == 1 and target:
        st.AddFile(target)
    before = list(st.GetItemsFor())
    kw = {'lineOffset': off}
    if target:
        kw['forcedLink'] = target
    res = st.AddFile(p, **kw)
    n = 3
    known_class = name.endswith('.bbclass') and any(x.Origin == p for x in before)
    # a bbappend moves to the end of its recipe
    free = not name.endswith('.bbappend') or not any(x.Origin == env.path('r/foo_1.0.bb') for x in before)
    same('returned items', [(x.RealRaw, x.Line if free else 0, x.InFileLine) for x in res], [] if known_class else [(x.RealRaw, x.Line + off if free else 0, x.InFileLine) for x in first])
    new = [x for x in st.GetItemsFor() if not any(x is y for y in before)]
    if not any(x.Origin == env.path('classes/k.bbclass') for x in before) and target is None:
        same('items with an offset', sorted((x.Origin, x.RealRaw, x.Line, x.InFileLine) for x in new), ref)
    if target:
        def linked():
            if res or known_class:
                check(p in st.GetLinksForFile(target), f'{name} is not linked to {LINK[ln]}')
            found = st.GetItemsFor(filename=target)
            for x in res:
                check(any(x is y for y in found), f'{x.RealRaw!r} is not found for {LINK[ln]}')
            if not name.endswith('.bbappend'):
                same('links the other way round', target in st.GetLinksForFile(p), False)
        linked()
        if order == 2:
            st.AddFile(target)
            linked()
        st.Finalize()
        linked()
        for x in res:
            check(target in x.IncludedFrom, f'{x.RealRaw!r} is not included from {LINK[ln]}')
        n += 6
    return Obs(states=[tuple(case[1:])], transitions=n, outcome=(case, len(new)))
