"""C13: line order is evaluation order."""
import itertools

from mc.lib import LARGE, SIZES, check, same, words_upto

ID = 'C13'
RULE = ('a case gives the content of a recipe, two include files, a class and up to two bbappends as sequences of statements (single and multi '
        'line, includes, inherits) and the order in which the files are added; the reference flattens the unit recursively and puts the '
        'bbappends at the end in the order of adding')
ASSUMPTIONS = ['the include graph is acyclic', 'a class is evaluated where it is first inherited, later inherits of it have no effect',
               'a bbappend that is added before its recipe does not inherit a class of that recipe']

NAME = {'r': 'foo_1.0.bb', 's': 'foo_2.0.bb', 'a': 'a.inc', 'b': 'b.inc', 'k': 'classes/k.bbclass', 'm': 'classes/m.bbclass', 'p': 'foo_%.bbappend', 'q': 'foo_1.%.bbappend',
        'z': 'foo_3.bbappend'}
A_OPT = ['V', 'VbV', 'bV', 'M', '', 'Vbb', 'F', 'kV', 'EbE', 'mNV']
B_OPT = ['V', 'MV', '', 'VkV', 'CV', 'NV', 'DDE']
K_OPT = ['V', 'MFV', 'mV', 'EDaV']
P_OPT = ['V', 'aV', 'Va', 'VbM', 'kV', '', 'DNE', 'mV']
R_CHARS = 'VabkM'
X_CHARS = 'VabENDmWKk'
S = 'VVaVVVVV'
# bodies of the includes and classes for recipes over the larger alphabet
X_OPT = [('V', 'V', 'V', 'V'), ('EbV', 'NV', 'mE', 'ED'), ('WV', 'DV', 'Vb', ''), ('', 'VmE', 'NDV', 'aN')]
PLANS = ['rp', 'pr', 'rpq', 'pqr', 'qrp', 'zpr', 'rFpF']
# the recipe added again
PLANS_R = ['rrp', 'rpr', 'rprq', 'rrqp', 'prr']
PLANS_S = ['rsp', 'prs', 'srp', 'spr', 'rpsq', 'psqr', 'pFrFsF']
BOUNDS = {
    'quick': f'recipes of <= 3 statements over 5 kinds x {len(A_OPT)} x {len(B_OPT)} include bodies x {len(K_OPT)} class bodies and over {len(X_CHARS)} kinds x {len(X_OPT)} sets of bodies; recipes of <= 2 statements with '
             f'{len(P_OPT)} bbappend bodies and {len(PLANS)} orders; {len(PLANS_S)} orders with a second recipe sharing the bbappends; up to 129 includes, classes and bbappends in a row, 65 includes within each other',
    'thorough': f'recipes of <= 5 statements over 5 kinds x {len(A_OPT)} x {len(B_OPT)} include bodies x {len(K_OPT)} class bodies and over {len(X_CHARS)} kinds x {len(X_OPT)} sets of bodies; recipes of <= 3 statements with '
                f'{len(P_OPT)} bbappend bodies and {len(PLANS)} orders; {len(PLANS_S)} orders with a second recipe; up to 600 includes, classes and bbappends in a row',
}


# one statement of every other kind, in front of, between and behind includes
MISC = ['export E = "1"\n', 'export E\n', 'unset V\n', 'addtask do_t after do_u\n', 'deltask do_t\n', 'V[doc] = "1"\n', 'EXPORT_FUNCTIONS do_t\n', 'addpylib ${LAYERDIR}/lib x\n',
        'addfragments a B C\n', 'include_all x.inc\n', 'INHERIT += "nowhere"\n', 'INHERIT = "m"\n', 'inherit_defer m\n', 'inherit nowhere\n', 'python () {\n    a\n}\n', 'fakeroot do_f() {\n    a\n}\n',
        'V:append = "${@f(1)}"\n', 'V ??= "${@bb.utils.contains(\'A\', \'b\', \'c\', \'d\', d)}"\n', '  # indented\n', 'something else\n', '   \n', 'inherit m ${V}\n', 'require ${V}.inc\n', 'include a.inc \n',
        'V = "a \\\n\\\n b"\n']


def letter(c):
    return {'INHERIT = "m"\n': 'm', 'inherit_defer m\n': 'm', 'inherit m ${V}\n': 'm', 'include a.inc \n': 'a'}.get(MISC[c], '-') if isinstance(c, int) else c


def acyclic(g):
    def walk(f, path):
        return f not in path and all(walk(x, path + f) for y in g.get(f, '') for x in CALLS.get(letter(y), ''))
    return all(walk(f, '') for f in g)


def single(g):
    if acyclic(g):
        yield [g, 'r']


def cases(tier):
    deep = tier == 'thorough'
    n = 5 if deep else 3
    for r in words_upto(R_CHARS, n):
        for a in A_OPT if 'a' in r else A_OPT[:1]:
            for b in B_OPT if 'b' in r or ('a' in r and 'b' in a) else B_OPT[:1]:
                for k in K_OPT if 'k' in (''.join(r) + a + b) else K_OPT[:1]:
                    yield from single({'r': ''.join(r), 'a': a, 'b': b, 'k': k, 'm': 'VV'})
    for r in words_upto(X_CHARS, n):
        for a, b, k, m in X_OPT:
            yield from single({'r': ''.join(r), 'a': a, 'b': b, 'k': k, 'm': m})
    for k in (LARGE if deep else SIZES):
        for shape in range(4):
            if shape != 1 or k < 80:
                yield ['long', k, shape]
    for s1 in range(len(MISC)):
        for s2 in range(len(MISC)):
            yield from single({'r': ['a', s1, s2, 'b', s1, 'V'], 'a': ['V', s2, 'V'], 'b': [s1, s2], 'k': 'V', 'm': 'VV'})
            g = {'r': [s1, s2, 'k', s2], 'a': 'VV', 'b': 'V', 'k': [s2, 'b', s1], 'm': [s1] if letter(s1) == '-' else '', 'p': [s2, 'b', s1], 'q': 'VaV', 'z': 'V', 's': S}
            for plan in ('prq', 'rpq', 'r'):
                if acyclic(g) and valid(g, plan):
                    yield [g, plan]
    for r in words_upto(R_CHARS, 3 if deep else 2):
        for p in P_OPT:
            for a in A_OPT[:4] if not deep else A_OPT:
                for b in B_OPT[:4:3] if not deep else B_OPT:
                    g = {'r': ''.join(r), 'a': a, 'b': b, 'k': 'V', 'm': 'V', 'p': p, 'q': 'VaV', 'z': 'V', 's': S}
                    for plan in PLANS + PLANS_S:
                        if acyclic(g) and valid(g, plan):
                            yield [g, plan]
                    for plan in PLANS_R:
                        if acyclic(g) and valid(g, plan):
                            yield [g, plan]
                    for k in ('', 'V'):
                        # an empty class or include in front of further statements
                        h = dict(g, k='VVVVV' if k else '', m=k, b=k)
                        for plan in ('rp', 'rrp') if k else ('rp',):
                            if acyclic(h) and valid(h, plan):
                                yield [h, plan]


CALLS = {'a': 'a', 'b': 'b', 'k': 'k', 'm': 'm', 'W': 'mk', 'K': 'km'}


def uses(g, f, c):
    return c == f or any(uses(g, x, c) for y in g.get(f, '') for x in CALLS.get(letter(y), ''))


def valid(g, plan):
    order = plan.replace('F', '')
    for i, x in enumerate(order):
        if x in 'pqz' and any(uses(g, x, c) and any(y in 'rs' and uses(g, y, c) for y in order) for c in 'km'):
            return False
    return 's' not in order or not any(uses(g, 'r', c) and uses(g, 's', c) for c in 'km')


def lines(n, body):
    """the statements of a file with the letter of each; an empty line after a def is part of the def"""
    res = []
    for i, c in enumerate(body):
        if isinstance(c, int):
            # the letter is what the statement pulls in
            res.append((letter(c), MISC[c]))
            continue
        if c == 'E' and res and res[-1][0] == 'D':
            res[-1] = ('D', res[-1][1] + '\n')
            continue
        v = f'{n.upper()}V{i}'
        res.append((c, {'V': f'{v} = "1"\n', 'M': f'{v} = "1 \\\n  2 \\\n  3"\n', 'C': f'# {v}\n# more\n', 'F': f'do_{v}() {{\n    x\n}}\n',
                    'a': 'require a.inc\n', 'b': 'include b.inc\n', 'k': 'inherit k\n', 'm': 'inherit m\n', 'W': 'inherit m k\n', 'K': 'inherit \\\n  k \\\n  m\n',
                    'E': '\n', 'N': 'require nowhere/n.inc\n', 'D': f'def {v}(d):\n    a = 1\n    return a\n'}[c]))
    return res


def text(n, body):
    return ''.join(t for _, t in lines(n, body))


def render(case):
    if case[0] == 'long':
        return ['%d includes in a row', '%d includes within each other', '%d bbappends', '%d classes in a row'][case[2]] % case[1]
    g, plan = case
    return '\n'.join(f'--- {NAME[n]}\n{text(n, b)}' for n, b in g.items() if n in plan + 'abkm') + f'\norder: {[NAME.get(x, "Finalize") for x in plan]}'


def flatten(g, f, classes):
    res = []
    if f in 'km':
        classes.add(f)
    for c, t in lines(f, g[f]):
        res.append((NAME[f], t))
        for x in CALLS.get(c, ''):
            if x in 'ab' or x not in classes:
                res += flatten(g, x, classes)
    return res


def long(case, env):
    """many or deeply nested includes, bbappends and classes"""
    from mc.engine import Obs
    _, k, shape = case
    env.wipe()
    env.write('conf/layer.conf', '')
    want = []
    plan = ['foo_1.0.bb']
    if shape == 0:
        env.write('foo_1.0.bb', ''.join(f'A{i} = "1"\nrequire i{i}.inc\n' for i in range(k)) + 'Z = "1"\n')
        for i in range(k):
            env.write(f'i{i}.inc', f'B{i} = "1 \\\n  2"\nC{i} = "1"\n' if i % 2 else f'B{i} = "1"\n')
            want += [f'A{i}', f'B{i}'] + [f'C{i}'] * (i % 2)
        want.append('Z')
    elif shape == 1:
        for i in range(k):
            env.write(f'i{i}.inc' if i else 'foo_1.0.bb', f'A{i} = "1"\n' + (f'require i{i + 1}.inc\n' if i + 1 < k else '') + f'B{i} = "1"\n')
        want = [f'A{i}' for i in range(k)] + [f'B{i}' for i in reversed(range(k))]
    elif shape == 2:
        env.write('foo_1.0.bb', 'A = "1"\n\nB = "1"\n')
        want = ['A', 'B']
        for i in range(k):
            env.write(f'l{i}/foo_%.bbappend', f'A{i} = "1"\n' + 'B += "\\\n  2 \\\n"\n' * (i % 3))
            want += [f'A{i}'] + ['B'] * (i % 3)
            plan.append(f'l{i}/foo_%.bbappend')
    else:
        env.write('foo_1.0.bb', ''.join(f'A{i} = "1"\ninherit c{i}\n' for i in range(k)))
        for i in range(k):
            env.write(f'classes/c{i}.bbclass', f'B{i} = "1"\n' + (f'inherit c{i - 1}\n' if i % 4 == 3 else '') + (f'inherit c{i + 1}\n' if i % 4 == 0 and i + 1 < k else '') + f'D{i} = "1"\n')
            want.append(f'A{i}')
            if i % 4 != 1:
                want.append(f'B{i}')
                want += [f'B{i + 1}', f'D{i + 1}'] if i % 4 == 0 and i + 1 < k else []
                want.append(f'D{i}')
    st = env.stash()
    for f in plan:
        st.AddFile(env.path(f))
    st.Finalize()
    items = [x for x in st.GetItemsFor(filename=env.path('foo_1.0.bb')) if type(x).__name__ == 'Variable']
    same(f'evaluation order, {k}', [x.VarName for x in items], want)
    ln = [x.Line for x in items]
    check(ln == sorted(ln) and len(set(ln)) == len(ln), f'lines do not increase: {ln}')
    return Obs(states=[(k, shape)], transitions=len(want), outcome=(k, shape))


def again(case, env, st):
    """a recipe that is added twice is there twice, the bbappends are evaluated after both"""
    from mc.engine import Obs
    g, plan = case
    pieces = []
    for f in plan:
        known = {id(x) for x in st.GetItemsFor()}
        st.AddFile(env.path(NAME[f]))
        pieces.append((f, [x for x in st.GetItemsFor() if id(x) not in known]))
    classes = set()
    root = env.root + '/'
    end = 0
    for f, items in sorted(pieces, key=lambda x: x[0] not in 'rs'):
        items.sort(key=lambda x: x.Line)
        same(f'content of {NAME[f]}', [(x.Origin.replace(root, ''), x.RealRaw) for x in items], flatten(g, f, classes))
        ln = [x.Line for x in items]
        check(len(set(ln)) == len(ln), f'{NAME[f]}: items share a line: {ln}')
        if f in 'rs':
            end = max([end] + ln)
        elif ln:
            check(ln[0] > end, f'{NAME[f]} is evaluated at line {ln[0]}, before the end of the recipe at line {end}')
            end = ln[-1]
    return Obs(states=[(plan, len(i)) for _, i in pieces], transitions=len(plan), outcome=tuple((f, len(i)) for f, i in pieces))


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'long':
        return long(case, env)
    g, plan = case
    env.write('conf/layer.conf', '')
    for n in g:
        env.write(NAME[n], text(n, g[n]))
    st = env.stash()
    got = {}
    if len(set(plan)) != len(plan) and 'F' not in plan:
        return again(case, env, st)
    for f in plan:
        if f == 'F':
            st.Finalize()
            continue
        known = {id(x) for x in st.GetItemsFor()}
        st.AddFile(env.path(NAME[f]))
        got[f] = [x for x in st.GetItemsFor() if id(x) not in known]
    order = [f for f in plan if f != 'F']
    n = 0
    out = []
    for r in (x for x in order if x in 'rs'):
        unit = [r] + [x for x in order if x == 'p' or (x == 'q' and r == 'r')]
        items = [x for f in unit for x in got[f]]
        classes = set()
        want = [y for f in unit for y in flatten(g, f, classes)]
        items.sort(key=lambda x: x.Line)
        root = env.root + '/'
        seq = [(x.Origin.replace(root, ''), x.RealRaw) for x in items]
        same(f'evaluation order of {NAME[r]}', seq, want)
        ln = [x.Line for x in items]
        check(len(set(ln)) == len(ln), f'{NAME[r]}: items share a line: {list(zip(ln, seq))}')
        st.Finalize()
        if len(unit) == 1 or not any(uses(g, 'p', c) for c in 'km'):
            deep = [x for x in st.GetItemsFor(filename=env.path(NAME[r])) if any(x is y for y in items)]
            same(f'queried order of {NAME[r]}', [id(x) for x in deep], [id(x) for x in items if any(x is y for y in deep)])
        n += 2
        out.append(tuple(seq))
    if 'z' in order:
        same('lines of a lone bbappend', [x.Line for x in got['z']], [x.InFileLine for x in got['z']])
    return Obs(states=[s[:k] for s in out for k in range(1, len(s) + 1)], transitions=n + len(plan), outcome=tuple(out))
