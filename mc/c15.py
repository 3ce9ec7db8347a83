"""C15: term expansion."""
import itertools
import re

from mc import lib
from mc.lib import SIZES, check, same, words_upto

ID = 'C15'
RULE = ('a case assigns to each of up to four variables a value that refers to a sub-set of them (all reference graphs, cycles included), '
        'possibly preceded or followed by appends, defaults or overrides and possibly in an included file or bbappend, and expands '
        'terms with and without spared names; the reference substitutes recursively with an active set')
ASSUMPTIONS = ['on a cycle, only termination and the absence of references to assigned variables are required',
               'references are not nested in references']

VARS = ['A', 'B', 'C', 'D']
# forms of defining a variable: (text, is the definition the value of the template)
DEF = [
    '{n} = "{v}"\n',
    '{n}:append = "no"\n{n} += "no"\n{n} ?= "{v}"\n{n} = "no"\n',
    '{n} ??= "{v}"\n{n} = "no"\n{n}:append = "no"\n',
    '{n}:class-target := "{v}"\n{n} = "no"\n',
    '{n}:remove = "no"\n{n} .= "no"\n{n}   =   " {v}"\n',
    "{n} = '{v}'\n{n}:append = 'no'\n",
]
PAD = ['', ' ', ' ', ' ', ' ', '']
FACTS = [('PN', 'nativesdk-foo'), ('BPN', 'foo'), ('PV', '1.0'), ('FILE', '@'), ('THISDIR', '.'), ('P', 'nativesdk-foo-1.0'), ('BP', 'foo-1.0'),
         ('SOLIBS', None), ('NOSUCH', '${NOSUCH}'), ('MLPREFIX', None), ('FILES:${PN}-dev', None), ('lower', '${lower}'), ('', '${}')]
BOUNDS = {
    'quick': f'all reference graphs over 3 variables (512) x {len(DEF)} definition forms x spare sets of <= 1 name x 3 places or with all sub-sets of the variables in the base set, all acyclic and cyclic graphs '
             'over 4 variables with <= 2 references each, all terms of <= 3 of 16 fragments, {len(lib.VARS)} well-known names x 8 ways of (not) assigning them, 6 pairs of file facts in all sub-sets of the values of all acyclic graphs over 3 variables, file facts for 12 names with overriding assignments, all texts of <= 3 of 11 pieces around blocks that read files; chains, rings, stars and ladders of up to 65 variables',
    'thorough': 'as quick with all 65536 graphs over 4 variables, all spare sets, mixed definition forms, terms of <= 4 fragments, up to 129 variables',
}
FRAG = ['t', '${A}', '${B}', '${PN}', '${NOSUCH}', ' ', '${', '}', '$', '{', "d.getVar('A')", 'd.getVar("B", True)', '${THISDIR}', '/', "d.getVar('NOSUCH')",
        '${PV}']


def cases(tier):
    deep = tier == 'thorough'
    sub3 = [list(x) for n in range(4) for x in itertools.combinations('ABC', n)]
    for g in itertools.product(sub3, repeat=3):
        for d in range(len(DEF)):
            for sp in [[], ['A'], ['B'], ['C']] + ([['A', 'B'], ['B', 'C'], ['A', 'B', 'C']] if deep else []):
                for where in range(3) if (d == 0 or deep) and len(sp) < 2 else (0,):
                    yield ['graph', list(g), d, sp, where]
    sub4 = [list(x) for n in range(5 if deep else 3) for x in itertools.combinations('ABCD', n)]
    for g in itertools.product(sub4, repeat=4):
        yield ['graph', list(g), sum(map(len, g)) % len(DEF) if deep else 0, [], 0]
    for g in itertools.product(sub3, repeat=3):
        for mask in range(1, 8):
            for sp in [[], ['A'], ['B'], ['C']]:
                yield ['base', list(g), mask, sp]
    for t in words_upto(range(len(FRAG)), 4 if deep else 3, 1):
        # no reference within a reference
        if not any('{' in m or '$' in m for m in re.findall(r'\$\{(.[^}]*)\}', ''.join(FRAG[i] for i in t))):
            yield ['term', list(t)]
    for f in range(len(FACTS)):
        for form in range(4):
            for name in range(len(FNAMES)):
                yield ['fact', f, form, name]
    for f in range(len(MIXED)):
        for g in range(8):
            for h in itertools.product(range(4), repeat=3):
                yield ['mixed', f, g, list(h)]
    for n in range(len(lib.VARS)):
        for form in range(8):
            yield ['named', n, form]
    for v in range(len(QUOTED)):
        yield ['quoted', v]
    for n in SIZES:
        for shape in range(4):
            if deep or n < 66:
                yield ['scale', n, shape]
    for t in words_upto(range(len(PIECES)), 4 if deep else 3, 1):
        if any('read_file' in PIECES[i][0] for i in t):
            yield ['read', list(t)]


def scale(case, env):
    """chains, rings and stars of n variables, terms of n references"""
    _, n, shape = case
    v = {}
    for i in range(n):
        if shape == 0:
            v[f'V{i}'] = f'<{i}${{V{i + 1}}}>' if i + 1 < n else '<end>'
        elif shape == 1:
            v[f'V{i}'] = f'<{i}${{V{(i + 1) % n}}}>'
        elif shape == 2:
            v[f'V{i}'] = f'<{i}>' if i else ''.join(f'${{V{k}}}' for k in range(1, n))
        else:
            v[f'V{i}'] = f'<{i}>' if i < 2 else f'${{V{i - 1}}}' * (1 + (i % 16 == 0)) + f'${{V{i % 2}}}'
    p = env.write('foo_1.0.bb', ''.join(f'{k} = "{x}"\n' for k, x in v.items()))
    st = env.stash()
    st.AddFile(p)
    st.Finalize()
    outs = []
    if shape == 0:
        want = ''.join(f'<{i}' for i in range(n - 1)) + '<end>' + '>' * (n - 1)
        outs.append(st.ExpandTerm(p, '${V0}'))
        same(f'expansion of a chain of {n}', outs[0], want)
        same(f'expansion of the end of a chain of {n}', st.ExpandTerm(p, f'${{V{n - 1}}}'), '<end>')
        same(f'variable at the head of a chain of {n}', st.ExpandVar(filename=p, attribute='VarName', attributeValue='V0').get('V0'), [want])
    elif shape == 1:
        got = st.ExpandTerm(p, f'${{V{n // 2}}}')
        for i in range(n):
            check(f'<{i}' in got and f'${{V{i}}}' not in got, f'expansion of a ring of {n}: {got!r}')
        outs.append(got)
    elif shape == 2:
        want = ''.join(f'<{k}>' for k in range(1, n))
        outs.append(st.ExpandTerm(p, '${V0}'))
        same(f'expansion of {n} references in a value', outs[0], want)
        t = ' '.join(f'${{V{k}}}/x' for k in range(1, n))
        same(f'expansion of {n} references in a term', st.ExpandTerm(p, t), ' '.join(f'<{k}>/x' for k in range(1, n)))
        t = '${V1}' * n + 'x' * n + '${NOSUCH}' * n + '${V1}'
        same(f'expansion of {n} times the same', st.ExpandTerm(p, t), t.replace('${V1}', '<1>'))
    else:
        # every value refers to the one before, some twice
        memo = ['<0>', '<1>']
        for i in range(2, n):
            memo.append(memo[-1] * (1 + (i % 16 == 0)) + memo[i % 2])
        outs.append(st.ExpandTerm(p, f'${{V{n - 1}}}'))
        same(f'expansion of a ladder of {n}', outs[0], memo[n - 1])
    return outs


def named(case, env):
    """well-known names of variables that are assigned, appended to, unset or left out"""
    name, form = lib.VARS[case[1]], case[2]
    own = [f'{name} = "own ${{PN}}"\n', f'{name} ?= "own ${{PN}}"\n{name} += "no"\n', f'{name}:append = "no"\n', '', f'unset {name}\n', f'X{name} = "no"\n{name}X = "no"\n{name}[doc] = "no"\n', f'export {name} = "no"\n',
           f'{name}:x86 = "own ${{PN}}"\n'][form]
    value = 'own foo' if form in (0, 1, 7) else '${%s}' % name
    if name == 'PE' and form == 5:
        return []
    p = env.write('foo_1.0.bb', 'Q = "<${%s}>"\nrequire x.inc\n' % name)
    env.write('x.inc', own)
    st = env.stash()
    st.AddFile(p)
    st.Finalize()
    outs = []
    for t, want in (('${%s}' % name, value), ('${Q}', f'<{value}>'), ('a${%s}/${Q}${NO}${%s}' % (name, name), f'a{value}/<{value}>${{NO}}{value}'), (f"d.getVar('{name}')", value if form in (0, 1, 7) else f"d.getVar('{name}')"),
                    ('$%s {%s} %s' % (name, name, name), '$%s {%s} %s' % (name, name, name))):
        got = st.ExpandTerm(p, t)
        same(f'expansion of {t!r}', got, want)
        same(f'expansion of {t!r}, asked again', st.ExpandTerm(p, t), want)
        if 'getVar' not in t:
            same(f'expansion of {t!r} sparing {name}', st.ExpandTerm(p, t, spare=[name]), want.replace(value, '${%s}' % name) if '$' in t and form in (0, 1, 7) else want)
        outs.append(got)
    same('variable that refers to it', st.ExpandVar(filename=p, attribute='VarName', attributeValue='Q').get('Q'), f'<{value}>'.split())
    return outs


MIXED = [('PN', 'PV'), ('BPN', 'FILE'), ('THISDIR', 'PN'), ('PV', 'BPN'), ('P', 'THISDIR'), ('NOSUCH', 'PN')]


def mixed(case, env):
    """facts of the file at several depths of references"""
    _, f, g, h = case
    refs = {'A': [x for i, x in enumerate('BC') if g >> i & 1], 'B': ['C'] * (g >> 2), 'C': []}
    val = {n: n.lower() + ''.join('-${%s}' % x for x in [*[y for i, y in enumerate(MIXED[f]) if s >> i & 1], *refs[n], *[y for i, y in enumerate(MIXED[f]) if s >> i & 1]]) for n, s in zip('ABC', h)}
    p = env.write('nativesdk-foo_2.1.bb', ''.join(f'{k} = "{v}"\n' for k, v in val.items()))
    facts = {'PN': 'nativesdk-foo', 'BPN': 'foo', 'PV': '2.1', 'P': 'nativesdk-foo-2.1', 'FILE': p, 'THISDIR': env.root, 'NOSUCH': '${NOSUCH}'}
    full = {}
    for n in 'CBA':
        full[n] = re.sub(r'\$\{(\w+)\}', lambda m: full.get(m[1], facts.get(m[1])), val[n])
    st = env.stash()
    st.AddFile(p)
    st.Finalize()
    outs = []
    for t in ('${A}', '${C} ${B} ${A}', '${%s}${A}${%s}' % MIXED[f], '${B}|${%s}|${%s}|${C}' % MIXED[f]):
        outs.append(st.ExpandTerm(p, t))
        same(f'expansion of {t!r}', outs[-1], re.sub(r'\$\{(\w+)\}', lambda m: full.get(m[1], facts.get(m[1])), t))
    ev = st.ExpandVar(filename=p)
    for n in 'ABC':
        same(f'value of {n}', ev[n], [full[n]])
    return outs


FNAMES = ['nativesdk-foo_1.0.bb', 'foo-native_2.bb', 'foo.bb', 'foo-cross_git.bb', 'foo_1_2.bb', 'a-b-c_1.0.bb']
QUOTED = [("${@f(d.getVar('FILE'))}", '${@f("@")}'), ("${@f(d.getVar('THISDIR'))}", '${@f(".")}'), ("${@f(d.getVar('A', True))}", '${@f(aa)}'),
          ("${@f(d.getVar('NOSUCH'))}", "${@f(d.getVar('NOSUCH'))}"), ('${@oe.utils.read_file("${THISDIR}/in.txt")}', 'content of A\n'),
          ("${@oe.utils.read_file('/nothing/here')}", ''), ("${@oe.utils.read_file('${B}/in.txt')}", 'content of A\n'),
          ("${@oe.utils.read_file(d.getVar('THISDIR') + '/nothing')}", '')]
# texts around blocks that read a file, and what becomes of them
PIECES = [('t-', 't-'), (' ', ' '), ('${A}', 'aa'), ("${@oe.utils.read_file('${B}/in.txt')}", 'content of A\n'), ("${@oe.utils.read_file('/nothing/here')}", ''), ('${@f(d)}', '${@f(d)}'), ('}', '}'),
          ("${@ oe.utils.read_file('${THISDIR}/two.txt')}", '2'), ("${@f(d.getVar('A'))}", '${@f(aa)}'), ('oe.utils.read_file(', 'oe.utils.read_file('), ('${NOSUCH}', '${NOSUCH}')]


def build(case):
    _, g, d, sp, _ = case if case[0] == 'graph' else [*case[:2], 0, case[3], 0]
    out = []
    for n, refs in zip(VARS, g):
        v = f'<{n.lower()}' + ''.join('.${%s}' % r for r in refs) + '>'
        out.append(DEF[d].format(n=n, v=v))
    return out


def render(case):
    if case[0] == 'graph':
        return f'spared {case[3]}, place {case[4]}\n' + ''.join(build(case))
    if case[0] == 'base':
        return f'spared {case[3]}, in the base set: {[n for i, n in enumerate("ABC") if case[2] >> i & 1]}\n' + ''.join(build(case))
    if case[0] == 'term':
        return repr(''.join(FRAG[i] for i in case[1]))
    if case[0] == 'named':
        return f'{lib.VARS[case[1]]}, form {case[2]}'
    if case[0] == 'mixed':
        return repr(case)
    if case[0] == 'scale':
        return f'{case[1]} variables, shape {case[2]}'
    if case[0] == 'read':
        return repr(''.join(PIECES[i][0] for i in case[1]))
    return repr([case, FACTS[case[1]] if case[0] == 'fact' else QUOTED[case[1]]])


def reachable(g, x, stop):
    res, todo = set(), [x]
    while todo:
        n = todo.pop()
        if n in res or n in stop:
            continue
        res.add(n)
        todo += g[VARS.index(n)]
    return res


def cyclic(g, x, stop):
    seen = set()

    def walk(n, path):
        if n in stop:
            return False
        if n in path:
            return True
        if n in seen:
            return False
        r = any(walk(y, path | {n}) for y in g[VARS.index(n)])
        seen.add(n)
        return r
    return walk(x, frozenset())


def value(g, d, x, stop):
    """recursive substitution on an acyclic graph"""
    if x in stop:
        return '${%s}' % x
    return PAD[d] * (d == 4) + f'<{x.lower()}' + ''.join('.' + value(g, d, r, stop) for r in g[VARS.index(x)]) + '>'


def graph(case, env):
    how, g, d, sp = case[:4]
    if how == 'base':
        d = 0
        base = {n: t.split('"')[1] for i, (n, t) in enumerate(zip(VARS, build(case))) if case[2] >> i & 1}
        parts = ['R = "1"\n', *(t for n, t in zip(VARS, build(case)) if n not in base)]
        p = env.write('foo_1.0.bb', ''.join(parts))
        env.CONSTANTS.AddConstants({'sets': {'base': base}})
        try:
            st = env.stash()
            st.AddFile(p)
            st.Finalize()
            return terms(st, p, g, d, sp)
        finally:
            env.CONSTANTS.RemoveConstants({'sets': {'base': list(base)}})
    where = case[4]
    parts = build(case)
    env.write('x.inc', ''.join(parts[1:2]))
    env.write('foo_%.bbappend', ''.join(parts[1:2]))
    main = parts if where == 0 else ([parts[0], 'require x.inc\n', *parts[2:]] if where == 1 else [parts[0], *parts[2:]])
    p = env.write('foo_1.0.bb', ''.join(main))
    st = env.stash()
    st.AddFile(p)
    if where == 2:
        st.AddFile(env.path('foo_%.bbappend'))
    st.Finalize()
    return terms(st, p, g, d, sp)


def terms(st, p, g, d, sp):
    outs = []
    names = VARS[:len(g)]
    for x in names:
        for term in ('${%s}' % x, 'a-${%s}/${%s} ${NOSUCH}' % (x, x)):
            got = st.ExpandTerm(p, term, spare=list(sp)) if sp else st.ExpandTerm(p, term)
            if cyclic(g, x, sp):
                for y in names:
                    if y not in sp:
                        check('${%s}' % y not in got, f'expansion of {term!r} leaves a reference to {y}: {got!r}')
                check(('<%s' % x.lower()) in got, f'expansion of {term!r} lost the value of {x}: {got!r}')
                for y in reachable(g, x, sp):
                    check('<%s' % y.lower() in got, f'expansion of {term!r} lost the value of {y}: {got!r}')
                for y in sp:
                    if any(y in g[VARS.index(z)] for z in reachable(g, x, sp)):
                        check('${%s}' % y in got, f'expansion of {term!r} does not keep the reference to {y}: {got!r}')
            else:
                v = value(g, d, x, sp)
                same(f'expansion of {term!r} sparing {sp}', got, term.replace('${%s}' % x, v))
            outs.append(got)
        # the other way to refer to a variable
        for term in ("d.getVar('%s')" % x, 'a-d.getVar("%s", True)/${%s}' % (x, x)):
            got = st.ExpandTerm(p, term, spare=list(sp))
            form = term.split('/')[0].replace('a-', '')
            if x in sp:
                same(f'expansion of {term!r} sparing {sp}', got, term)
            elif not cyclic(g, x, sp):
                same(f'expansion of {term!r} sparing {sp}', got, term.replace('${%s}' % x, form).replace(form, value(g, d, x, sp)))
            outs.append(got)
    # several references in one term do not depend on each other
    if not any(cyclic(g, x, sp) for x in names):
        t = '|'.join('${%s}' % x for x in names + names[::-1])
        got = st.ExpandTerm(p, t, spare=list(sp))
        same(f'expansion of {t!r}', got, '|'.join(value(g, d, x, sp) for x in names + names[::-1]))
    return outs


def run(case, env):
    from mc.engine import Obs
    if case[0] in ('graph', 'base'):
        outs = graph(case, env)
    elif case[0] == 'term':
        p = env.write('foo_1.0.bb', 'A = "aa"\nB = "b${A}"\n')
        st = env.stash()
        st.AddFile(p)
        t = ''.join(FRAG[i] for i in case[1])
        got = st.ExpandTerm(p, t)
        # a reference starts at '${' and ends at the next '}'
        want, i = '', 0
        vals = {'A': 'aa', 'B': 'baa', 'PN': 'foo', 'PV': '1.0', 'THISDIR': env.root}
        while i < len(t):
            j = t.find('}', i)
            if t.startswith('${', i) and j > i + 2:
                name = t[i + 2:j]
                want += vals.get(name, t[i:j + 1])
                i = j + 1
                continue
            want += t[i]
            i += 1
        want = want.replace("d.getVar('A')", 'aa').replace('d.getVar("B", True)', 'baa')
        same(f'expansion of {t!r}', got, want)
        outs = [got]
    elif case[0] == 'fact':
        outs = fact(case, env)
    elif case[0] == 'named':
        outs = named(case, env)
    elif case[0] == 'mixed':
        outs = mixed(case, env)
    elif case[0] == 'scale':
        outs = scale(case, env)
    elif case[0] == 'read':
        raw = ''.join(PIECES[i][0] for i in case[1])
        want = ''.join(PIECES[i][1] for i in case[1])
        env.write('in.txt', 'content of A\n')
        env.write('two.txt', '2')
        p = env.write('foo_1.0.bb', f'A = "aa"\nB = "${{THISDIR}}"\nQ = "{raw}"\n')
        st = env.stash()
        st.AddFile(p)
        outs = [st.ExpandTerm(p, raw), st.ExpandTerm(p, '<${Q}>${A}')]
        same(f'expansion of {raw!r}', outs[0], want)
        if raw.strip() == raw:
            same(f'expansion of a variable that is {raw!r}', outs[1], f'<{want}>aa')
    else:
        raw, want = QUOTED[case[1]]
        env.write('in.txt', 'content of A\n')
        p = env.write('foo_1.0.bb', f'A = "aa"\nB = "${{THISDIR}}"\nQ = "{raw}"\n' if '"' not in raw else f"A = \"aa\"\nB = \"${{THISDIR}}\"\nQ = '{raw}'\n")
        st = env.stash()
        st.AddFile(p)
        got = st.ExpandTerm(p, raw)
        same(f'expansion of {raw!r}', got, want.replace('@"', p + '"').replace('".', '"' + env.root))
        outs = [got]
    return Obs(states=outs, transitions=len(outs), outcome=tuple(outs))


def bpn(pn):
    pn = pn.removeprefix('nativesdk-')
    for s in ('-native', '-cross'):
        pn = pn.removesuffix(s)
    return pn


def fact(case, env):
    _, f, form, name = case
    fname = FNAMES[name]
    stem = fname[:-3].split('_')
    pn, pv = stem[0], stem[1] if len(stem) > 1 else '1.0'
    p = env.path(fname)
    vals = {'PN': pn, 'BPN': bpn(pn), 'PV': pv, 'FILE': p, 'THISDIR': env.root, 'P': f'{pn}-{pv}', 'BP': f'{bpn(pn)}-{pv}'}
    base = dict(env._db_keys['sets']['base'])
    key = FACTS[f][0]

    def expand(v):
        for _ in range(5):
            for k, x in {**base, **vals}.items():
                if k not in ('P', 'BP'):
                    v = v.replace('${%s}' % k, x)
                else:
                    v = v.replace('${%s}' % k, vals[k])
        return v
    ref = '${%s}' % key
    want = vals.get(key) if key in vals else expand(base[key]) if key in base else ref
    body = ''
    if key and form == 1:
        body, want = f'{key} = "own ${{UNDEF}}"\n', 'own ${UNDEF}'
    elif key and form == 2:
        body = f'{key}:append = "x"\n{key} += "y"\n'
    elif key and form == 3:
        body = f'OTHER = "${{{key}}}"\n'
        ref = '${OTHER}'
    if '$' in key and form:
        body = 'X = "1"\n'
        ref = '${%s}' % key
    if '$' in key:
        return []
    env.write(fname, body or 'X = "1"\n')
    st = env.stash()
    st.AddFile(p)
    st.Finalize()
    outs = []
    for t in (ref, f'x{ref}/{ref}y'):
        got = st.ExpandTerm(p, t)
        same(f'expansion of {t!r} in {fname} with {body!r}', got, t.replace(ref, want))
        outs.append(got)
        if key:
            same(f'spared expansion of {t!r}', st.ExpandTerm(p, t, spare=[key]), t if form != 3 else t.replace(ref, '${%s}' % key))
    return outs
