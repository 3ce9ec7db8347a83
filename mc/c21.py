"""C21: facts that follow from the file name."""
import itertools

from mc.lib import CLASSES, same

ID = 'C21'
RULE = ('a case is a stem, suffix and directory, combined with all prefixes, versions and extensions; or a set of assignments to PN, BPN, PV, P and BP and the '
        'files they are made in; the reference cuts the name at the underscores and strips one known prefix and suffix; observed are the guesses, the expansion '
        'of terms and of variables')
ASSUMPTIONS = ['a name has at most one of the suffixes and one prefix, and something remains without them']

PRE = ['', 'nativesdk-']
CORE = ['', 'foo', 'foo-bar', 'native', 'cross', 'foo-nativex', 'a.b', 'lib32-foo', 'foo-native-x', 'f', 'nativesdkfoo', 'foo-crosscompiler', '1foo', 'foo+x',
        'xnativesdk-foo', 'foo-cross-canadian-x', 'foo-sdk', 'nativefoo', 'foonative', 'foocross', 'cross-foo', 'native-foo', 'foo-nativesdk-x', 'Foo', 'foo.bb', 'x-native.y']
NC = len(CORE)
CORE += [c for c in CLASSES if c not in CORE] + ['linux-yocto', 'gcc-crosssdk', 'gcc-cross-canadian', 'gcc-cross-x86', 'lib64-foo', 'libx32-x', 'foo-initial', 'foo-intermediate', 'foo-multilib', 'foo-nativesdk', 'foo-target', 'foo-dev',
         'foo-dbg', 'foo-bin', 'foo-crosssdk-initial', 'nativesdk', 'sdk-foo', 'cross-canadian', 'class-native-x', 'virtual-foo', 'python3-foo', 'perl-native-modules', 'meta-foo', 'foo-image', 'foo-git', 'foo-1.0', 'x-cross-native-x']
SUF = ['', '-native', '-cross']
VER = [None, '', '1.0', 'git', '1.0+git', '1.0_r2', '2.0-rc1_a_b', '%', '1.%', '1.0-native', '1.0.bb', '0', 'v1', '_1']
EXT = ['.bb', '.bbappend', '.inc', '.conf', '.bbclass', '']
DIRS = ['', 'a_b', 'x_1.0.bb', 'foo-native_2/nativesdk-a', 'a.b/c_1']
FORMS = ['{n} = "{v}"', '{n} ?= "{v}"', '{n} := "{v}"', '{n}:class-target = "{v}"']
NOFORM = ['{n} += "{v}"', '{n}:append = "{v}"', '{n} .= "{v}"', '{n}:prepend = "{v}"', '{n} =+ "{v}"', '{n}[doc] = "{v}"', 'X{n} = "{v}"', '# {n} = "{v}"']
WHERE = ['recipe', 'inc', 'append', 'class']
VARS = ['PN', 'BPN', 'PV', 'P', 'BP']
OFILES = ['nativesdk-foo_1.2.bb', 'foo-native.bb', 'bar-cross_git_r1.bb']
TERMS = ['${PN}', '${BPN}', '${PV}', '${P}', '${BP}', 'x${PN}y', '${PN}-${PV}.tar', '${P}/${BP}', '${PN}${PN}', '${PV}${BPN}${PV}']
BOUNDS = {
    'quick': f'{len(PRE)} prefixes x {len(CORE)} names x {len(SUF)} suffixes x {len(VER)} versions x {len(EXT)} extensions x {len(DIRS)} directories; {len(OFILES)} recipes x all sub-sets of '
             f'<= 2 of {len(VARS)} variables assigned x {len(FORMS)} forms x {len(WHERE)} files, {len(NOFORM)} forms that do not assign',
    'thorough': 'as quick, with all sub-sets of variables, all combinations of two forms and two files',
}


def cases(tier):
    deep = tier == 'thorough'
    for d in range(len(DIRS)):
        for s in range(len(SUF)):
            for c in range(len(CORE) if d < 1 or deep else NC):
                yield ['name', d, s, c]
    for f in range(len(OFILES)):
        for k in range(len(VARS) + 1 if deep else 3):
            for vs in itertools.combinations(range(len(VARS)), k):
                for fo in range(len(FORMS)):
                    for w in range(len(WHERE)):
                        yield ['own', f, list(vs), [fo] * k, [w] * k]
                if k == 2:
                    for fo in itertools.permutations(range(len(FORMS)), 2):
                        for w in itertools.product(range(len(WHERE)), repeat=2):
                            if deep or (fo[0] == 0 and w[0] != w[1]):
                                yield ['own', f, list(vs), list(fo), list(w)]
        for v in range(len(VARS)):
            for nf in range(len(NOFORM)):
                for w in range(len(WHERE)):
                    yield ['not', f, v, nf, w]


def render(case):
    if case[0] == 'name':
        return f'{DIRS[case[1]]}/*{CORE[case[3]]}{SUF[case[2]]}_*'
    return repr(case)


def facts(fn):
    """reference: name, base name, version"""
    stem = fn[:fn.rindex('.')] if '.' in fn else fn
    cut = stem.split('_')
    pn = cut[0]
    pv = cut[1] if len(cut) > 1 else None
    b = pn
    if b.startswith('nativesdk-'):
        b = b[len('nativesdk-'):]
    for s in ('-native', '-cross'):
        if b.endswith(s):
            b = b[:-len(s)]
            break
    return pn, b, pv


def terms(st, path, v, what):
    n = 0
    for t in TERMS:
        want = t
        for k in ('PN', 'BPN', 'PV', 'P', 'BP'):
            want = want.replace('${' + k + '}', v[k])
        same(f'{what}: {t}', st.ExpandTerm(path, t), want)
        n += 1
    return n


def values(fn, own):
    pn, b, pv = facts(fn)
    v = {'PN': pn, 'BPN': b, 'PV': pv or '1.0'}
    v.update({k: x for k, x in own.items() if k in v})
    v['P'] = own.get('P', f'{v["PN"]}-{v["PV"]}')
    v['BP'] = own.get('BP', f'{v["BPN"]}-{v["PV"]}')
    return v


def run(case, env):
    from mc.engine import Obs
    env.wipe()
    n = 0
    states = []
    if case[0] == 'name':
        _, d, s, c = case
        if CORE[c].endswith(('-native', '-cross')) and s or not CORE[c] and s:
            return Obs()
        st = env.stash()
        for pre, ver, ext in itertools.product(PRE, VER if c < NC else VER[:5], EXT if c < NC else EXT[:3]):
            fn = pre + CORE[c] + SUF[s] + ('' if ver is None else '_' + ver) + ext
            if not ext and '.' in fn or not CORE[c] and (ver is None or pre) or pre and (CORE[c] + SUF[s]).startswith(pre):
                continue
            p = env.path((DIRS[d] + '/' if DIRS[d] else '') + fn)
            pn, b, pv = facts(fn)
            for _ in range(2):
                same(f'name of {fn}', st.GuessRecipeName(p), pn)
                same(f'base name of {fn}', st.GuessBaseRecipeName(p), b)
                same(f'version of {fn}', st.GuessRecipeVersion(p), pv)
            states.append((pn, b, pv))
            n += 6
            if ext == '.bb':
                same(f'terms of {fn}, not added', st.ExpandTerm(p, '${PN}|${BPN}|${PV}|${P}|${BP}').split('|'),
                     [values(fn, {})[k] for k in ('PN', 'BPN', 'PV', 'P', 'BP')])
                s2 = env.stash()
                p = env.write((DIRS[d] + '/' if DIRS[d] else '') + fn, 'V = "${PN} ${BPN} ${PV} ${P} ${BP}"\nW:${PN} = "1"\n')
                s2.AddFile(p)
                v = values(fn, {})
                n += terms(s2, p, v, fn)
                exp = s2.ExpandVar(filename=p)
                same(f'variable of {fn}', exp.get('V'), [v[k] for k in ('PN', 'BPN', 'PV', 'P', 'BP') if v[k]])
                for what, e in (('expansion', exp), ('restricted expansion', s2.ExpandVar(filename=p, attribute='VarName', attributeValue='V')),
                                ('expansion of nothing', s2.ExpandVar(filename=p, attribute='VarName', attributeValue='None')),
                                ('expansion of all files', s2.ExpandVar())):
                    same(f'facts in the {what} of {fn}', [e.get(k) for k in ('PN', 'BPN', 'PV')], [[v[k]] if v[k] else [] for k in ('PN', 'BPN', 'PV')])
                check_name = f'W:{pn}'
                same(f'variable names of {fn}', check_name in exp, True)
                n += 2
        return Obs(states=states, transitions=n, outcome=(case, n))
    fn = OFILES[case[1]]
    own, text = {}, {w: [] for w in WHERE}
    if case[0] == 'own':
        for k, (i, fo, w) in enumerate(zip(*case[2:])):
            name = VARS[i]
            val = f'own{name.lower()}{k}'
            own[name] = val
            text[WHERE[w]].append(FORMS[fo].format(n=name, v=val))
    else:
        text[WHERE[case[4]]].append(NOFORM[case[3]].format(n=VARS[case[2]], v='no'))
    env.write('conf/layer.conf', '')
    env.write('classes/k.bbclass', 'KK = "1"\n' + '\n'.join(text['class']) + '\n')
    env.write('sub/x.inc', 'II = "1"\n' + '\n'.join(text['inc']) + '\n')
    p = env.write('rec/' + fn, 'require sub/x.inc\ninherit k\n' + '\n'.join(text['recipe']) + '\nV = "${PN} ${BPN} ${PV} ${P} ${BP}"\n')
    a = env.write('app/' + fn + 'append', 'AA = "1"\n' + '\n'.join(text['append']) + '\n')
    for order in ((p, a), (a, p)):
        st = env.stash()
        for f in order:
            st.AddFile(f)
        st.Finalize()
        v = values(fn, own)
        n += terms(st, p, v, f'{fn} with {text}')
        pn, b, pv = facts(fn)
        same('guesses', (st.GuessRecipeName(p), st.GuessBaseRecipeName(p), st.GuessRecipeVersion(p)), (pn, b, pv))
        e = st.ExpandVar(filename=p)
        same(f'facts in the expansion of {fn} with {text}', [e.get(k) for k in ('PN', 'BPN', 'PV')], [[v[k]] for k in ('PN', 'BPN', 'PV')]) if case[0] == 'own' and \
            all(x in (0, 2) for x in case[3]) else None
        same('variable', st.ExpandVar(filename=p, attribute='VarName', attributeValue='V').get('V'), [v[k] for k in ('PN', 'BPN', 'PV', 'P', 'BP')])
        n += 2
    return Obs(states=[(case[0], case[1], tuple(sorted(own)))], transitions=n, outcome=tuple(sorted(v.items())))
