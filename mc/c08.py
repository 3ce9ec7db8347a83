"""C08: unresolvable inline blocks come back verbatim and in place."""
import itertools

from mc.lib import SIZES, check, same, words_upto

ID = 'C08'
RULE = ('a case is a value made of literals, references, resolvable and unresolvable inline blocks, an assignment form and the inline '
        'mode; the reference substitutes atom by atom; checked are the expansion of the value with its variable as object '
        'reference, of terms referring to the variable (directly and through another variable), and the variable expansion')
ASSUMPTIONS = ['blocks have balanced braces and are written on one line']

# text, expansion, expansion with the negative branch
ATOMS = [
    ('${@foo(d)}',) * 3,
    ('${@some.function(d, "x y")}',) * 3,
    ('t', 't', 't'),
    ("${@bb.utils.contains('V', 'w', 'yes', 'no', d)}", 'yes', 'no'),
    ('${B}', '200', '200'),
    ("${@f(d.getVar('B'), d.getVar('ZZZ'))}", "${@f(200, d.getVar('ZZZ'))}", "${@f(200, d.getVar('ZZZ'))}"),
    ('${C}', '${@some.c(d)}/200', '${@some.c(d)}/200'),
    ("${@{'a': '${B}'}['a']}", "${@{'a': '200'}['a']}", "${@{'a': '200'}['a']}"),
    ("${@bb.utils.contains('V', 'w', '${B}/${C}', '', d)}", '200/${@some.c(d)}/200', ''),
    ('${ZZZ}', '${ZZZ}', '${ZZZ}'),
    ("${@g('${B}', '${B}')}", "${@g('200', '200')}", "${@g('200', '200')}"),
    ('${D}', '${@foo(d)}${@foo(d)}y${@some.c(d)}/200', '${@foo(d)}${@foo(d)}n${@some.c(d)}/200'),
    ('${@1 if a else 2}',) * 3,
    ('${@[x for x in "a".split()]}',) * 3,
    ('${@bb.utils.vercmp_string("1", "2")}',) * 3,
]
# long and deeply nested blocks
BIG = [x for k in SIZES for x in [
    ('${@f("%s")}' % ' '.join(['x'] * k),) * 3,
    ('${@f(%s)}' % ', '.join(f"{{'k{i}': 'v'}}" for i in range(k)),) * 3,
    ('${@%s1%s}' % ("{'a': " * k, '}' * k),) * 3,
    ('${@%s1%s}' % ('(' * k, ')' * k),) * 3,
    ('${@%s}' % ' + '.join(['${B}'] * k), '${@%s}' % ' + '.join(['200'] * k), '${@%s}' % ' + '.join(['200'] * k)),
]]
PRE = 'B = "200"\nC = "${@some.c(d)}/${B}"\nD = "${@foo(d)}${@foo(d)}${@bb.utils.contains(\'a\', \'b\', \'y\', \'n\', d)}${C}"\n'
ALL = ATOMS + BIG
SEPS = ['', ' ', '/', ' \\\n   ']
# text before the value, text after it, words around the value in the expansion, is there a referable assignment
FORMS = [
    ('A = "', '"\n', '', '', True), ('A ?= "', '"\n', '', '', True), ('A ??= "', '"\n', '', '', True), ('A := "', '"\n', '', '', True),
    ('A = "k"\nA += "', '"\n', 'k ', '', False), ('A = "k"\nA .= "', '"\n', 'k', '', False), ('A = "k"\nA =+ "', '"\n', '', ' k', False),
    ('A = "k"\nA =. "', '"\n', '', 'k', False), ('A = "k"\nA:append = "', '"\n', 'k', '', False), ('A = "k"\nA_prepend = "', '"\n', '', 'k', False),
    ('A:append = "', '"\n', '', '', False), ('A += "', '"\n', '', '', False),
]
BOUNDS = {
    'quick': f'all sequences of <= 2 of {len(ATOMS)} atoms x {len(SEPS)} separators x {len(FORMS)} assignment forms x 2 modes x helpers in the same '
             f'or an included file; all sequences of 3 atoms in the plain form; values of up to {max(SIZES)} atoms, blocks with up to {max(SIZES)} arguments or levels',
    'thorough': f'all sequences of <= 3 of {len(ATOMS)} atoms x {len(SEPS)} separators x {len(FORMS)} assignment forms x 2 modes x 2 places; '
                'all sequences of 4 atoms in the plain form',
}


# long values: the atoms that are repeated
LONG = [[0], [0, 1], [3], [0, 3], [5, 4, 2], [6, 0], [0, 9, 3, 2], [13, 12]]


def cases(tier):
    for atoms in LONG:
        for k in SIZES:
            yield [(atoms * k)[:k], 1, 0, 0, 0]
    for i in range(len(BIG)):
        b = len(ATOMS) + i
        for form in range(len(FORMS)):
            yield [[b], 0, form, form % 2, 0]
        for seq in ([0, b, 1], [3, b], [b, 8], [b, b], [4, b, 3, b, 2]):
            for form in (0, 8):
                yield [seq, 1, form, i % 2, 0]
    n = 3 if tier == 'thorough' else 2
    for seq in words_upto(range(len(ATOMS)), n, 1):
        for form in range(len(FORMS)):
            for sep in range(len(SEPS) if len(seq) > 1 else 1):
                for neg in (0, 1):
                    for inc in (0, 1) if len(seq) < n else (0,):
                        yield [list(seq), sep, form, neg, inc]
    for seq in itertools.product(range(len(ATOMS)), repeat=n + 1):
        for sep in (0, 1):
            for form in (0, 8):
                yield [list(seq), sep, form, 0, 0]


def build(case):
    seq, sep, form, neg, inc = case
    raw = SEPS[sep].join(ALL[i][0] for i in seq)
    val = SEPS[sep].join(ALL[i][2 if neg else 1] for i in seq).replace('\\\n', '\x1b')
    f = FORMS[form]
    return f[0] + raw + f[1], val


def render(case):
    return f'negative={bool(case[3])} helpers included={bool(case[4])}\n{PRE}{build(case)[0]}'


def run(case, env):
    from mc.engine import Obs
    seq, sep, form, neg, inc = case
    text, val = build(case)
    _, _, left, right, ref = FORMS[form]
    env.write('h.inc', PRE)
    p = env.write('foo_1.0.bb', ('require h.inc\n' if inc else PRE) + text + 'E = "${A}+${A}"\n')
    st = env.stash(negative_inline=bool(neg))
    res = st.AddFile(p)
    st.Finalize()
    x = [y for y in res if getattr(y, 'VarName', '') == 'A'][-1]
    same('value with object reference', st.ExpandTerm(p, x.VarValueStripped, objref=x), val)
    if ref:
        same('referring term', st.ExpandTerm(p, 'x ${A} y'), f'x {val} y')
        same('indirectly referring term', st.ExpandTerm(p, '${E}'), f'{val}+{val}')
        same('list of references', st.ExpandTerm(p, '${E} ${A} ${B}'), f'{val}+{val} {val} 200')
    want = (left + val + right).replace('\x1b', ' ').split()
    got = st.ExpandVar(filename=p, attribute='VarName', attributeValue='A')
    same('words of the variable', got.get('A'), want)
    full = st.ExpandVar(filename=p)
    same('words of the variable (all)', full.get('A'), want)
    check('inlineblock' not in repr(full) and 'inlineblock' not in repr(got), f'placeholder in {full}')
    if ref:
        same('words of the referring variable', full.get('E'), f'{val}+{val}'.replace('\x1b', ' ').split())
    out = (val, tuple(want))
    return Obs(states=[out], transitions=6, outcome=out)
