"""C04: decomposition of assignments."""
import itertools

from mc.lib import LARGE, SIZES, VARS, check, same, words_upto

ID = 'C04'
RULE = ('a case is one assignment assembled from (base name, list of overrides, override style, operator, spacing, value); '
        'the reference is the parts it was assembled from; the derived answers are recomputed from the parts')
ASSUMPTIONS = ['base names are upper case, in old style no part of the base name or override contains the delimiter '
               'followed by a lower case letter', 'values are quoted and do not start or end with a quote']

BASES = ['A', 'SRC_URI', 'FILES', 'LONG_VAR_NAME', 'PREFERRED_PROVIDER', 'X11V2', 'GTK+X', 'A.B-C', 'PKG', 'M', 'A__B', '_X']
# words that mean something in front of or within a name
LOOKALIKE = ['pkgs', 'pkgconfig', 'package', 'append', 'A-append', 'mixedCase', 'do-x', 'inherits', 'exported', 'unsetx', 'requires', 'includex', 'pythonx', 'fakerootx', 'defx', 'addtaskx', 'deltaskx', 'addpylibx',
             'INHERITS', 'XINHERIT', 'EXPORT_FUNCTIONSX', 'append-x', 'remove', 'prepend', 'class', 'machine', 'pn', 'PN-x', 'include.all', 'true', 'None', 'poky', 'qemux86']
MODS = ['append', 'prepend', 'remove']
CLS = ['class-native', 'class-nativesdk', 'class-cross', 'class-target']
OVR = MODS + CLS + ['qemux86', 'qemux86-64', '${PN}', '${PN}-dev', 'pn-foo', 'pre', 'end', '${PN}-locale-de-de', 'app', 'lib+x', 'machine',
                    'class', 'libc-musl', 'native', '1', 'appendix', 'task-append', '${MLPREFIX}foo', 'a--b', '${PN}-']
OPS = ['=', '+=', '?=', '??=', ':=', '.=', '=+', '=.']
SPACE = [(' ', ' '), ('', ''), ('', ' '), (' ', ''), ('  ', '\t'), ('\t', '  ')]
VALUES = ['v', '', 'a b', ' a', 'a ', 'x=y', 'a # b', '${X}', "it's", 'a:b', 'B[c] = d', 'file://a;b=c', '1 \\\n  2 \\\n', 'unset X',
          'a += b', 'a := ${B}', '\\"x\\" y', '{ }', 'do_x() {', '}', 'x_append = y', 'a\x0cb\u2028c\x85d\x1ce', '\xe4\u20ac\U0001f600']
TRAIL = ['\n', '', '  \n', '\n', ' \t\n']
# line ends of single-quoted values
SINGLE = (3, 4)
BOUNDS = {
    'quick': f'{len(BASES)} names x all override lists of length <= 2 over {len(OVR)} x 2 styles x {len(OPS)} operators; length 3 '
             f'for one name and operator; 2 names x length <= 1 x {len(OPS)} operators x {len(SPACE)} spacings x {len(VALUES)} values x 3 line ends in double, 2 in single quotes; up to 129 overrides; {len(VARS)} well-known names x 11 override lists x 2 styles x all operators',
    'thorough': f'{len(BASES)} names x all override lists of length <= 2 over {len(OVR)} x 2 styles x {len(OPS)} operators x 3 spacings; '
                'length 3 for all names and operators, length 4 for one name; 4 names x length <= 1 x all operators x spacings x values x line ends',
}


RAW = ['A_', 'A__', '_', '__', 'A_B_', 'A-', 'A.', 'A+', '${A}', '${A}_', 'A_${B}', '1', 'A1_', 'A__B__', 'a', 'a_b_c', 'AbC', '_A_']


def cases(tier):
    deep = tier == 'thorough'
    for n in range(len(RAW)):
        yield ['raw', n]
    for k in (LARGE if deep else SIZES):
        for step in (1, 5, 7):
            for style in '_:':
                for op in (0, 1):
                    yield [BASES[k % 4], [(j * step + k) % len(OVR) for j in range(k)], style, op, 0, 0, 0]
    for b in BASES:
        for n in words_upto(range(len(OVR)), 1):
            for style in '_:':
                for op in range(len(OPS)):
                    yield [b, list(n), style, op, 0, 0, 0]
    for b in VARS:
        for n in ([], [0], [1], [2], [3], [7], [9], [10], [9, 0], [7, 2], [9, 4, 1]):
            for style in '_:':
                for op in range(len(OPS)):
                    yield [b, n, style, op, 0, 2 if op % 2 else 0, 0]
    for b in LOOKALIKE:
        for n in words_upto(range(len(OVR)), 1):
            for style in '_:':
                for op in range(0, len(OPS), 1 if deep else 3):
                    yield [b, list(n), style, op, 0, 0, 0]
        for n in itertools.product((0, 2, 3, 7, 9, 10), repeat=2):
            for style in '_:':
                yield [b, list(n), style, 0, 0, 0, 0]
    for b in BASES[:4 if deep else 2]:
        for n in words_upto(range(len(OVR)), 1):
            for style in '_:':
                for op, sp, v, t in itertools.product(range(len(OPS)), range(len(SPACE)), range(len(VALUES)), range(len(TRAIL))):
                    yield [b, list(n), style, op, sp, v, t]
    for b in BASES:
        for n in itertools.product(range(len(OVR)), repeat=2):
            for style in '_:':
                for op in range(len(OPS)):
                    for sp in range(3 if deep else 1):
                        yield [b, list(n), style, op, sp, 0, 0]
    for n in itertools.product(range(len(OVR)), repeat=3):
        for b in (BASES if deep else BASES[1:2]):
            for op in (range(len(OPS)) if deep else (0,)):
                for style in '_:':
                    yield [b, list(n), style, op, 0, 0, 0]
    if deep:
        for n in itertools.product(range(len(OVR)), repeat=4):
            for style in '_:':
                yield [BASES[1], list(n), style, 1, 0, 0, 0]


def quote(t):
    return "'" if t in SINGLE else '"'


def text(case):
    if case[0] == 'raw':
        return RAW[case[1]] + ' = "1"\n'
    b, n, style, op, sp, v, t = case
    name = style.join([b] + [OVR[i] for i in n])
    return name + SPACE[sp][0] + OPS[op] + SPACE[sp][1] + quote(t) + VALUES[v] + quote(t) + TRAIL[t]


def render(case):
    return text(case)


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'raw':
        # names that are not plain: the complete name is what was written
        p = env.write('foo_1.0.bb', text(case))
        x, = env.stash().AddFile(p)
        same('kind', type(x).__name__, 'Variable')
        same('VarNameComplete', x.VarNameComplete, RAW[case[1]])
        same('VarName and SubItems', '_'.join([x.VarName] + x.SubItems), RAW[case[1]])
        return Obs(states=[text(case)], transitions=1, outcome=text(case))
    b, n, style, op, sp, v, t = case
    ov = [OVR[i] for i in n]
    p = env.write('foo_1.0.bb', text(case))
    res = env.stash().AddFile(p)
    same('kinds of items', [type(x).__name__ for x in res], ['Variable'])
    x = res[0]
    mods = [o for o in ov if o in MODS]
    delim = style if ov else x.OverrideDelimiter
    same('VarName', x.VarName, b)
    same('RawVarName', x.RawVarName, b)
    same('SubItems', x.SubItems, ov)
    same('SubItem', x.SubItem, delim.join(ov))
    same('OverrideDelimiter', x.OverrideDelimiter, ':' if style == ':' and ov else '_')
    same('VarNameComplete', x.VarNameComplete, delim.join([b] + ov))
    same('VarNameCompleteNoModifiers', x.VarNameCompleteNoModifiers, delim.join([b] + [o for o in ov if o not in MODS]))
    same('VarOp', x.VarOp, SPACE[sp][0] + OPS[op] + SPACE[sp][1])
    val = VALUES[v].replace('\n', '').replace('\\', '\x1b')
    same('VarValue', x.VarValue.rstrip(), quote(t) + val + quote(t))
    same('VarValueStripped', x.VarValueStripped, val)
    app = OPS[op] in ('+=', '.=', '=+', '=.')
    same('IsAppend', x.IsAppend(), app or 'append' in ov or 'prepend' in ov)
    same('AppendOperation', [y.strip() for y in x.AppendOperation()], ([OPS[op]] if app else []) + [m for m in MODS if m in ov])
    same('IsImmediateModify', x.IsImmediateModify(), not mods)
    same('GetClassOverride', x.GetClassOverride(), ([o for o in ov if o in CLS] or [''])[0])
    same('IsFromAppend', x.IsFromAppend(), False)
    check(x.IsFromClass is False, 'IsFromClass')
    out = (x.VarName, tuple(x.SubItems), x.VarOp, x.VarValue, x.OverrideDelimiter)
    return Obs(states=[out], transitions=1, outcome=out)
