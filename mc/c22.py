"""C22: package, resource and recipe-type facts."""
import itertools
import os
import re

from mc.lib import CLASSES, HUGE, LARGE, TASKS, VARS, same

ID = 'C22'
RULE = ('a case is a choice of statements and of the files (recipe, include, class, bbappend, include of the include, unrelated recipe) they stand in; the '
        'reference computes the sets of names, the verdicts and the file list from that choice; every question is asked twice and about the unrelated recipe, too')
ASSUMPTIONS = ['package lists have no inline blocks and are not assigned with remove overrides; PN is not assigned', 'class names are written literally',
               'patterns have no backslashes', 'for files, SRC_URI concerns the file it stands in and the files that one links to']

MAIN = 'rec/foo-x_1.0.bb'
WHERE = {'recipe': MAIN, 'inc': 'inc/c.inc', 'class': 'classes/k.bbclass', 'append': 'app/foo-x_1.%.bbappend', 'nested': 'inc/deep/n.inc', 'ainc': 'app/more/q.inc'}
OTHER = 'other/bar_2.0.bb'
PLACES = [[], ['recipe'], ['inc'], ['class'], ['append'], ['nested'], ['other'], ['recipe', 'append'], ['inc', 'append', 'recipe'], ['nested', 'class'], ['ainc']]
PVALS = ['${PN}-a', '${PN}-a b', '  ${PN}-a   ${PN}-b  ', '${PN}', '${BPN}-c ${PN}-tools', 'x${PN}y ${X}-z', '', '${PN}-a \\\n    ${PN}-b \\\n    c \\\n', '\t${PN}-a\t${PN}-b', '${PN}${PN} ${PV}-p',
         '${PACKAGE_BEFORE_PN} q', 'foo-x ${PN}-${PN}-d']
PVARS = ['PACKAGES', 'PACKAGE_BEFORE_PN', 'PACKAGES:class-target', 'PACKAGES_DYNAMIC', 'PACKAGESPLITFUNCS', 'XPACKAGES', 'PACKAGES[doc]']
POPS = ['=', '+=', '=+', ':append =', '?=']
SVALS = ['git://a;name=z', 'git://a;branch=x;name=${PN}-q;protocol=y file://b', 'http://a/b.tgz;name=one http://c;name=two', 'file://a', 'file://name=x', '${GPE_SVN};name=mir', 'git://a;name=a=b',
         'git://a;name=z \\\n    git://b;name=y \\\n    ', 'git://a;names=z git://b;xname=y', '', 'git://a;name=z git://b;name=z', 'git://a;name=z,y;branch=p,q', '\tgit://a;name=t1\tgit://b;name=t2']
SVARS = ['SRC_URI', 'SRC_URI:append', 'SRC_URI:class-native', 'SRC_URIX', 'SRC_URI[md5sum]']
DPATS = ['^foo-x-.*', '^${PN}-lib.*', 'lib(a|b)$', '^other', '.*', '^foo-x-plugin-[a-z]+$ ^lib.*-dev', '(', '^foo-x-[0-9]+', '', '^${BPN}-${PV}', '[', 'foo-x+', 'a ( b', '${TWO}', 'q-${TWO}$ ${TWO}']
OWN = [[], [('PN', 'lib', 'recipe')], [('PN', 'foo-x-libq', 'append')], [('BPN', 'liba', 'inc')], [('PV', 'a', 'recipe'), ('Q', 'foo-x', 'class')], [('Q', 'a', 'recipe')],
       [('PN', 'lib', 'other')], [('PN', 'a', 'class'), ('PV', '9', 'other')], [('Q', 'foo-x', 'other')], [('PN', 'other', 'nested'), ('BPN', 'libb', 'nested'), ('PV', '0', 'nested')], [('TWO', '^lib.*   ^other', 'recipe'), ('TWO', 'a b', 'other')], [('TWO', 'foo-x.*  \tlib[ab] ', 'class')]]
DNAMES = ['foo-x-liba', '${PN}-liba', 'liba', 'libab', 'other', 'another', 'foo-x', '${PN}', 'foo-x-plugin-a', 'foo-x-plugin-1', 'libq-dev', 'foo-x-1', 'foo-x-1.0', 'a', '', 'b', 'foo-xx']
KLASS = ['core-image', 'image', 'image-live', 'baremetal-image', 'kernel-fitimage', 'image-container', 'kernel-uimage', 'license_image', 'testimage', 'packagegroup', 'images', 'coreimage',
         'my-image', 'core-image-x', 'packagegroups', 'xpackagegroup', 'k packagegroup', 'image k', 'a b image c', 'core-image packagegroup', 'image.bbclass', 'packagegroup.bbclass']
KLASS += [c for c in CLASSES if c not in KLASS]
KSTMT = ['inherit', 'inherit_defer', '# inherit', 'X = "{}"']
IVARS = ['IMAGE_FEATURES', 'IMAGE_INSTALL', 'IMAGE_LINGUAS', 'IMAGE_ROOTFS_SIZE', 'IMAGE_ROOTFS_EXTRA_SPACE', 'IMAGE_FSTYPES', 'XIMAGE_INSTALL', 'IMAGE_INSTALLX']
IVARS += [v for v in VARS if v not in IVARS]
IFORM = ['{} = "a"', '{}:append = " a"', '{} += "a"', '{} ??= ""', '{}[doc] = "a"', 'unset {}', '# {} = "a"', '{}:remove = "a"']
NOISE = ['unset {}', 'unset {}[doc]', 'export {}', '{}[doc] = "zz-noise"', '# {} = "zz-noise"', 'def {}(d):\n    return "zz-noise"', '{}() {{\n    zz-noise\n}}', 'addtask {} after do_a', 'inherit zz-{}',
         'X{} = "zz-noise"', '{}X = "zz-noise"', 'zz = "{}"', 'do_a[vardeps] += "{}"', 'addhandler {}', 'EXPORT_FUNCTIONS {}', 'unset {}:zz', '{}:append[doc] = "zz-noise"', 'addpylib {} zz']
ASKED = {'pkg': ('PACKAGES', 'PACKAGE_BEFORE_PN'), 'res': ('SRC_URI',), 'dyn': ('PACKAGES_DYNAMIC',), 'type': ('IMAGE_INSTALL', 'IMAGE_FEATURES')}
ASIDE = [('pkg', [[1, 0, 0, 1]]), ('pkg', []), ('res', [[1, 0, 3]]), ('res', []), ('dyn', [[1, 1]]), ('dyn', []), ('type', [['k', 1, 0, 2]]), ('type', [])]
FDIRS = ['rec', 'app/more', 'inc', 'inc/deep', 'app', 'other', 'classes', '']
PATT = ['*', '*.patch', 'a.patch', 'nope', '?.patch', '[ab].*', '.*']
BOUNDS = {
    'quick': f'packages: {len(PVALS)} values x {len(PVARS)} variables x {len(POPS)} operators x {len(PLACES)} places, pairs of two values; resources: {len(SVALS)} x {len(SVARS)} x places; dynamic: '
             f'{len(DPATS)} patterns x {len(DNAMES)} names x places; types: {len(KLASS)} class lists x {len(KSTMT)} statements and {len(IVARS)} variables x {len(IFORM)} forms x places; files: all 2^7 sets of '
             f'files with SRC_URI x {len(PATT)} patterns x two directory names; {len(ASIDE)} of these worlds x {len(NOISE)} other statements that name the variable asked for x places; up to 600 packages, resources, patterns and classes',
    'thorough': 'as quick, with all pairs of values in all pairs of places',
}


def cases(tier):
    deep = tier == 'thorough'
    for v in range(len(PVALS)):
        for n in range(len(PVARS)):
            for o in range(len(POPS)):
                for pl in range(len(PLACES)):
                    if o == 0 or n < 3:
                        yield ['pkg', [[v, n, o, pl]]]
    for v, v2 in itertools.product(range(len(PVALS)), repeat=2):
        for pl, pl2 in (itertools.product(range(1, 7), repeat=2) if deep else ((1, 1), (2, 4))):
            yield ['pkg', [[v, 0, 0, pl], [v2, 1, 1, pl2]]]
    for v in range(len(SVALS)):
        for n in range(len(SVARS)):
            for pl in range(len(PLACES)):
                yield ['res', [[v, n, pl]]]
    for v, v2 in itertools.product(range(len(SVALS)), repeat=2):
        yield ['res', [[v, 0, 1], [v2, 1, 4]]]
    for v in range(len(DPATS)):
        for pl in range(len(PLACES)):
            yield ['dyn', [[v, pl]]]
    for v in range(len(DPATS)):
        for o in range(1, len(OWN)):
            for pl in (1, 2, 6, 8):
                yield ['dyn', [[v, pl]], o]
    for v, v2 in itertools.product(range(len(DPATS)), repeat=2):
        yield ['dyn', [[v, 1], [v2, 5]]]
    for pl in range(len(PLACES)):
        for k in range(len(KLASS)):
            for s in range(len(KSTMT)) if k < 22 else (0, 1):
                yield ['type', [['k', k, s, pl]]]
        for k in range(len(IVARS)):
            for s in range(len(IFORM)) if k < 8 else (0, 1):
                yield ['type', [['v', k, s, pl]]]
    for k in range(22):
        for i in range(8):
            yield ['type', [['k', k, 0, 3], ['v', i, 0, 4]]]
    yield ['typeconst', []]
    for n in (HUGE if deep else LARGE):
        for shape in range(3):
            yield ['bulk', n, shape]
    for a in range(len(ASIDE)):
        for i in range(len(ASKED[ASIDE[a][0]])):
            for n in range(len(NOISE)):
                for pl in range(1, len(PLACES)):
                    yield ['aside', a, i, n, pl]
    # the same with single quotes
    for v in range(len(PVALS)):
        for n in range(3):
            for o in range(len(POPS)):
                for pl in (1, 4, 7):
                    yield ['single', 'pkg', [[v, n, o, pl]]]
    for v, n, pl in itertools.product(range(len(SVALS)), range(len(SVARS)), (1, 2, 4, 5)):
        yield ['single', 'res', [[v, n, pl]]]
    for v, pl in itertools.product(range(len(DPATS)), (1, 4)):
        yield ['single', 'dyn', [[v, pl]]]
    for k, s, pl in itertools.product(range(8), range(len(IFORM)), (1, 3)):
        yield ['single', 'type', [['v', k, s, pl]]]
    for m in range(128):
        for d in range(2):
            yield ['files', m, d]


aside = []
swap = False


def render(case):
    if case[0] == 'single':
        return 'in single quotes: ' + render(case[1:])
    if case[0] == 'aside':
        k, c = ASIDE[case[1]]
        return NOISE[case[3]].format(ASKED[k][case[2]]) + f' in {PLACES[case[4]]} beside ' + (render([k, c]) or f'nothing ({k})')
    if case[0] == 'pkg':
        return '\n'.join(f'{PVARS[n]} {POPS[o]} "{PVALS[v]}" in {PLACES[p]}' for v, n, o, p in case[1])
    if case[0] == 'res':
        return '\n'.join(f'{SVARS[n]} = "{SVALS[v]}" in {PLACES[p]}' for v, n, p in case[1])
    if case[0] == 'dyn':
        return '\n'.join(f'PACKAGES_DYNAMIC "{DPATS[v]}" in {PLACES[p]}' for v, p in case[1])
    return repr(case)


def world(env, stmts, pre=''):
    """stmts: (statement, place list); returns stash, recipe, unrelated recipe"""
    text = {k: [] for k in [*WHERE, 'other']}
    if swap:
        stmts = [(s.replace('"', "'"), p) for s, p in stmts]
    for s, places in [*aside, *stmts]:
        for p in places:
            text[p].append(s)
    t = {k: ('\n'.join(v) + '\n' if v else '') for k, v in text.items()}
    env.write(pre + 'conf/layer.conf', '')
    env.write(pre + WHERE['nested'], 'NN = "1"\n' + t['nested'])
    env.write(pre + WHERE['inc'], 'II = "1"\nrequire deep/n.inc\n' + t['inc'])
    env.write(pre + WHERE['class'], 'KK = "1"\n' + t['class'])
    main = env.write(pre + MAIN, 'require inc/c.inc\ninherit k\n' + t['recipe'] + 'EE = "1"\n')
    app = env.write(pre + WHERE['append'], 'AA = "1"\nrequire more/q.inc\n' + t['append'])
    env.write(pre + WHERE['ainc'], 'QQ = "1"\n' + t['ainc'])
    other = env.write(pre + OTHER, 'OO = "1"\n' + t['other'])
    st = env.stash()
    for f in (main, app, other):
        st.AddFile(f)
    st.Finalize()
    return st, main, other


def assign(name, op, value):
    if op.startswith(':'):
        return f'{name}{op} " {value}"'
    return f'{name} {op} "{value}"'


STD = ['', '-ptest', '-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale']


def packages(case, env):
    stmts = [(assign(PVARS[n], POPS[o], PVALS[v]), PLACES[p]) for v, n, o, p in case[1]]
    st, main, other = world(env, stmts)
    out = []
    for f, pn, bpn, pv in ((main, 'foo-x', 'foo-x', '1.0'), (other, 'bar', 'bar', '2.0')):
        listed = []
        before = None
        for v, n, o, p in case[1]:
            hit = bool(set(PLACES[p]) - {'other'}) if f == main else 'other' in PLACES[p]
            if not hit:
                continue
            val = PVALS[v].replace('\\\n', ' ').replace('${BPN}', bpn).replace('${PV}', pv)
            if PVARS[n].split(':')[0] in ('PACKAGES', 'PACKAGE_BEFORE_PN') and '[' not in PVARS[n]:
                listed.append(val)
            if PVARS[n] == 'PACKAGE_BEFORE_PN' and POPS[o] in ('=', '?='):
                before = val
        if any('${PACKAGE_BEFORE_PN}' in x for x in listed) and any(PVARS[n] == 'PACKAGE_BEFORE_PN' for _, n, _, _ in case[1]):
            return 'self reference'
        words = [w for x in listed for w in x.replace('${PACKAGE_BEFORE_PN}', before or '').split()]
        for strip in (False, True):
            want = {p + s for p in ('${PN}', pn) for s in STD}
            for w in words:
                if strip:
                    want.add(w.replace('${PN}', ''))
                else:
                    want |= {w, w.replace('${PN}', pn)}
            for _ in range(2):
                got = st.GetValidPackageNames(f, strippn=strip)
                same(f'packages of {os.path.basename(f)}, strippn={strip}', sorted(got), sorted(want))
                same('strippn as a positional argument', sorted(st.GetValidPackageNames(f, strip)), sorted(want))
                if not strip:
                    same('packages without strippn', sorted(st.GetValidPackageNames(f)), sorted(want))
            out.append(len(want))
    return tuple(out)


def resources(case, env):
    stmts = [(f'{SVARS[n]} = "{SVALS[v]}"', PLACES[p]) for v, n, p in case[1]]
    st, main, other = world(env, stmts)
    out = []
    for f, pn in ((main, 'foo-x'), (other, 'bar')):
        want = {pn}
        for v, n, p in case[1]:
            hit = bool(set(PLACES[p]) - {'other'}) if f == main else 'other' in PLACES[p]
            if hit and SVARS[n].split(':')[0] == 'SRC_URI':
                for u in SVALS[v].replace('\\\n', ' ').split():
                    for o in u.split(';')[1:]:
                        k, eq, x = o.partition('=')
                        if eq and k == 'name':
                            want.add(x.replace('${PN}', pn))
        for _ in range(2):
            same(f'resources of {os.path.basename(f)}', sorted(st.GetValidNamedResources(f)), sorted(want))
        out.append(tuple(sorted(want)))
    return tuple(out)


def dynamic(case, env):
    stmts = [(f'PACKAGES_DYNAMIC += "{DPATS[v]}"', PLACES[p]) for v, p in case[1]]
    own = OWN[case[2]] if len(case) > 2 else []
    stmts += [(f'{k} = "{v}"', [w]) for k, v, w in own]
    st, main, other = world(env, stmts)
    out = []
    for f, pn, pv in ((main, 'foo-x', '1.0'), (other, 'bar', '2.0')):
        facts = {'PN': pn, 'BPN': pn, 'PV': pv}
        for k, v, w in own:
            if (w == 'other') == (f == other):
                facts[k] = v

        def ex(x):
            for k, v in facts.items():
                x = x.replace('${' + k + '}', v)
            return x
        pats = []
        for v, p in case[1]:
            if (bool(set(PLACES[p]) - {'other'}) if f == main else 'other' in PLACES[p]):
                pats += ex(DPATS[v]).split()
        same('patterns', sorted(st.GetPackagesDynamic(f)), sorted(set(pats)))
        for name in DNAMES + ['${PN}-lib${PV}', '${Q}-liba', 'lib${Q}', '${BPN}-1'] * (len(case) > 2):
            want = False
            for x in pats:
                try:
                    want |= bool(re.match(x, ex(name)))
                except re.error:
                    pass
            for _ in range(2):
                same(f'{name} a dynamic package of {os.path.basename(f)} with {pats}', bool(st.IsDynamicPackage(f, name)), want)
            out.append(want)
    return tuple(out)


IMG = {'baremetal-image', 'core-image', 'image', 'image-container', 'image-live', 'kernel-fitimage', 'kernel-uimage', 'license_image', 'testimage'}
IMGV = set(IVARS[:5])


def kinds(case, env):
    stmts = []
    for what, i, s, p in case[1]:
        if what == 'k':
            t = KSTMT[s].format(KLASS[i]) if '{}' in KSTMT[s] else f'{KSTMT[s]} {KLASS[i]}'
        else:
            t = IFORM[s].format(IVARS[i])
        stmts.append((t, PLACES[p]))
    st, main, other = world(env, stmts)
    out = []
    for f in (main, other):
        img = grp = False
        for what, i, s, p in case[1]:
            if not (bool(set(PLACES[p]) - {'other'}) if f == main else 'other' in PLACES[p]):
                continue
            if what == 'k':
                if s < 2:
                    words = {w.removesuffix('.bbclass') for w in KLASS[i].split()}
                    img |= bool(words & IMG)
                    grp |= 'packagegroup' in words
            else:
                img |= IVARS[i] in IMGV and IFORM[s][0] == '{' and '[' not in IFORM[s]
        for _ in range(2):
            same(f'{os.path.basename(f)} is an image', bool(st.IsImage(f)), img)
            same(f'{os.path.basename(f)} is a packagegroup', bool(st.IsPackageGroup(f)), grp)
        out.append((img, grp))
    return tuple(out)


def bulk(case, env):
    """n names, URIs, patterns and classes: all in one value, one per statement, spread over the files"""
    _, n, shape = case
    keys = list(WHERE)

    def spread(var, words, op='+='):
        if shape == 0:
            return [(f'{var} {op} "' + ' '.join(words) + '"', ['inc'])]
        if shape == 1:
            return [(f'{var} {op} "{w}"', ['recipe']) for w in words]
        return [(f'{var} {op} "{w}"', [keys[i % len(keys)]]) for i, w in enumerate(words)]
    stmts = spread('PACKAGES', [f'${{PN}}-p{i}' if i % 2 else f'q{i}' for i in range(n)])
    stmts += spread('SRC_URI', [f'git://h/p{i};name=u{i};branch=b' for i in range(n)])
    stmts += spread('PACKAGES_DYNAMIC', [f'^d{i}-.*$' for i in range(n)])
    plain = [f'c{i}' for i in range(n)]
    cls = {0: [' '.join(plain)], 1: plain, 2: plain}[shape]
    stmts += [(f'inherit {x}', ['recipe' if shape < 2 else keys[i % len(keys)]]) for i, x in enumerate(cls)]
    st, main, _ = world(env, stmts)
    std = {p + s for p in ('${PN}', 'foo-x') for s in STD}
    same(f'{n} packages', sorted(st.GetValidPackageNames(main)), sorted(std | {x for i in range(n) for x in ([f'foo-x-p{i}', f'${{PN}}-p{i}'] if i % 2 else [f'q{i}'])}))
    same(f'{n} resources', sorted(st.GetValidNamedResources(main)), sorted({'foo-x'} | {f'u{i}' for i in range(n)}))
    same(f'{n} patterns', sorted(st.GetPackagesDynamic(main)), sorted(f'^d{i}-.*$' for i in range(n)))
    for i in {0, 1, n // 2, n - 2, n - 1} & set(range(n)):
        same(f'package of pattern {i} of {n}', bool(st.IsDynamicPackage(main, f'd{i}-x')), True)
    same('package of no pattern', bool(st.IsDynamicPackage(main, f'd{n}-x')), False)
    same('image', (bool(st.IsImage(main)), bool(st.IsPackageGroup(main))), (False, False))
    env.wipe()
    env.clear_caches()
    plain[-1] = 'core-image'
    plain[n // 2] = 'packagegroup'
    cls = {0: [' '.join(plain)], 1: plain, 2: plain}[shape]
    st, main, _ = world(env, [(f'inherit {x}', ['recipe' if shape < 2 else keys[i % len(keys)]]) for i, x in enumerate(cls)])
    same('last and middle class', (bool(st.IsImage(main)), bool(st.IsPackageGroup(main))), (True, True))
    return n


def typeconst(env):
    """the sets of known classes and variables are those of the constants"""
    for i, (cls, var) in enumerate(((['mine'], []), ([], ['MY_IMAGE']), (['mine', 'other'], ['MY_IMAGE', 'B']))):
        env.wipe()
        env.CONSTANTS.OverrideConstants({'images': {'known-classes': cls, 'known-variables': var}})
        for t, c, v in (('inherit mine', 'mine', None), ('inherit image', 'image', None), ('MY_IMAGE = "1"', None, 'MY_IMAGE'), ('IMAGE_INSTALL = "1"', None, 'IMAGE_INSTALL')):
            st, main, _ = world(env, [(t, ['inc'])])
            same(f'{t} with {cls} {var}', bool(st.IsImage(main)), c in cls or v in var)
            env.clear_caches()
    return 'const'


def files(case, env):
    _, mask, d = case
    pre = ['', 'w[1]*/'][d]
    keys = [*WHERE, 'other']
    have = {k for i, k in enumerate(keys) if mask >> i & 1}
    stmts = [('SRC_URI += "file://a.patch"', [k]) for k in keys if k in have]
    names = {}
    for x in FDIRS:
        for n in ('a.patch', 'foo/a.patch', 'foo/b.patch', 'files/c.txt', 'foo/more/a.patch', 'foo-x/ab.patch', 'foo/.h.patch', '.hid/a.patch'):
            names[os.path.normpath(f'{x}/{n}')] = 1
            env.write(pre + f'{x}/{n}', 'x')
    env.write(pre + 'rec/one/zz.patch', '')
    st, main, other = world(env, stmts, pre)
    out = []
    import fnmatch
    import glob
    links = {'recipe': ['recipe', 'inc', 'nested', 'class', 'append', 'ainc'], 'inc': ['inc', 'nested'], 'nested': ['nested'], 'class': ['class'], 'append': ['append', 'ainc'], 'ainc': ['ainc'], 'other': ['other']}
    path = dict(WHERE, other=OTHER)
    for f, view in ((main, links['recipe']), (other, ['other'])):
        dirs = {os.path.dirname(path[y]) for x in view if x in have for y in links[x]}
        for pat in PATT:
            want = set()
            for dd in dirs:
                for sub in os.listdir(env.path(pre + dd)):
                    full = os.path.join(env.path(pre + dd), sub)
                    # as in a shell, hidden files need a pattern that starts with a dot
                    if os.path.isdir(full) and not sub.startswith('.'):
                        want |= {os.path.join(full, x) for x in os.listdir(full) if fnmatch.fnmatchcase(x, pat) and (pat[0] == '.' or x[0] != '.')}
            for _ in range(2):
                same(f'files {pat} of {os.path.basename(f)}', st.GetFiles(f, pat), sorted(want))
            out.append(len(want))
    del glob
    return tuple(out)


def run(case, env):
    from mc.engine import Obs
    env.wipe()
    env.reset_constants()
    aside.clear()
    global swap
    swap = case[0] == 'single'
    if swap:
        case = case[1:]
    try:
        if case[0] == 'aside':
            k, c = ASIDE[case[1]]
            aside.append((NOISE[case[3]].format(ASKED[k][case[2]]), PLACES[case[4]]))
            out = {'pkg': packages, 'res': resources, 'dyn': dynamic, 'type': kinds}[k]([k, c], env)
        elif case[0] == 'files':
            out = files(case, env)
        elif case[0] == 'typeconst':
            out = typeconst(env)
        elif case[0] == 'bulk':
            out = bulk(case, env)
        else:
            out = {'pkg': packages, 'res': resources, 'dyn': dynamic, 'type': kinds}[case[0]](case, env)
    finally:
        aside.clear()
        swap = False
        env.reset_constants()
    return Obs(states=[(case[0], out)], transitions=8, outcome=(case[0], out))
