"""C05: functions."""
import itertools
import textwrap

from mc.lib import LARGE, SIZES, TASKS, same, words_upto

ID = 'C05'
RULE = ('a case is a function definition assembled from (prefix, name, overrides, style, header spacing, body lines) with a '
        'statement before and after it; the reference is the parts it was assembled from')
ASSUMPTIONS = ['the closing brace is on a line of its own and braces in the body are balanced when counted line by line',
               'bodies contain no inline python expressions (see C07/C08)',
               'the body is compared with the common indentation removed']

PREFIX = [('', False, False), ('python ', True, False), ('fakeroot ', False, True), ('fakeroot python ', True, True),
          ('python fakeroot ', True, True), ('python  ', True, False), ('fakeroot\t', False, True)]
NAMES = ['do_compile', 'x', 'do_x-y', 'python_foo', 'fakeroot_do', 'pkg_postinst_${PN}-dev', 'a.b', 'gtk+x', 'append_x', 'Do_X',
         '__anonymous', 'do_${X}', 'oe_runmake', 'pythonic', '_priv']
NN = len(NAMES)
NAMES += TASKS
MARK = ['append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target']
OVR = MARK + ['qemux86', '${PN}', 'pre', 'x86-64', 'native']
HEAD = [('()', ' '), (' ()', ' '), ('()', ''), ('( )', ' '), ('()', '  ')]
BODY = ['    foo', '', '    a {', '    }', '}', '# c', 'A = "1"', '    x="$(y)"; b() { c; }', '    inherit x \\', '  \tbar', 'def f():',
        '    } else {', '    echo "a" # {}', 'python () {', '   ', '    a\x0cb\u2028c\x85d\xe4  ', '    b {{ {', '}}', '    }}}']
AROUND = ['', 'A = "1"\n', '# c\n', 'def f(d):\n    pass\n', 'do_o() {\n    }\n', '\n', 'inherit x\n', 'python () {\n    o\n}\n',
          'A[b] = "c"\n', 'B = "a \\\n  b"\n']
# name, kind expected
KINDS = {'A': 'Variable', '#': 'Comment', 'd': None, '\n': 'Item', 'i': 'Inherit', 'p': 'Function', 'B': 'Variable'}
BOUNDS = {
    'quick': f'{len(PREFIX)} prefixes x {NN} names x all override lists of length <= 2 over {len(OVR)} x 2 styles; all balanced '
             f'bodies of <= 4 lines over {len(BODY)}; {len(TASKS)} well-known names; {len(PREFIX)} prefixes x {NN} names x 5 headers; all neighbours '
             f'({len(AROUND)}^2) x prefixes x 3 bodies; bodies of up to 129 lines or levels, up to 129 overrides',
    'thorough': f'as quick with override lists of length <= 3 and balanced bodies of <= 5 lines over {len(BODY)}, bodies of <= 3 lines '
                'with every prefix and every following statement',
}
BODIES = [[0], [], [2, 3, 7]]


def balanced(body):
    lvl = 0
    for i in body:
        lvl += BODY[i].count('{') - BODY[i].count('}')
        if lvl < 0:
            return False
    return lvl == 0


def cases(tier):
    deep = tier == 'thorough'
    for pre, name, ov, style in itertools.product(range(len(PREFIX)), range(NN), words_upto(range(len(OVR)), 1), '_:'):
        yield [pre, name, list(ov), style, 0, [0], 0, 0]
    for pre, name, style in itertools.product(range(4), range(NN, len(NAMES)), '_:'):
        for ov in ([], [0], [1], [2], [3], [7], [8], [7, 0], [8, 3]):
            yield [pre, name, ov, style, 0, [0], 1, 1]
    for pre, name, h in itertools.product(range(len(PREFIX)), range(NN), range(len(HEAD))):
        for st in ':_':
            yield [pre, name, [0, 3], st, h, [0], 0, 1]
            yield [pre, name, [], st, h, [0], 0, 1]
    for h in range(len(HEAD)):
        for pre in (1, 3, 4, 5):
            yield [pre, None, [], ':', h, [0], 1, 1]
    for k in (LARGE if deep else SIZES):
        for body in ([0] * k, [2] * k + [3] * k, [2, 3] * k, [0, 1] * k, [1] * k, [5] * k, [6, 0, 15] * k, [2] * k + [11] * k + [3] * k, [13, 4] * k):
            for a in (1, 3, 5):
                yield [k % 2, 0, [], ':', 0, body, 0, a]
        for style in '_:':
            yield [0, 0, [(j * 5 + k) % len(OVR) for j in range(k)], style, 0, [0], 0, 1]
    for b, a, pre, body in itertools.product(range(len(AROUND)), range(len(AROUND)), range(len(PREFIX)), BODIES):
        for name in (0, 3):
            yield [pre, name, [0], ':', 0, body, b, a]
    for body in words_upto(range(len(BODY)), 5 if deep else 4):
        if balanced(body):
            yield [0, 0, [], ':', 0, list(body), 0, 1]
            if len(body) < 4:
                for pre in range(1, len(PREFIX)) if deep else (1,):
                    for a in range(len(AROUND)) if deep else (2, 3):
                        yield [pre, 0, [0], ':', 0, list(body), 0, a]
    for pre, name, ov, style in itertools.product(range(len(PREFIX)), range(NN),
                                                  itertools.product(range(len(OVR)), repeat=2), '_:'):
        yield [pre, name, list(ov), style, 0, [0], 0, 0]
    if deep:
        for name, ov, style in itertools.product(range(NN), itertools.product(range(len(OVR)), repeat=3), '_:'):
            yield [0, name, list(ov), style, 0, [0], 0, 0]


def build(case):
    pre, name, ov, style, h, body, b, a = case
    n = '' if name is None else NAMES[name]
    full = style.join([n] + [OVR[i] for i in ov])
    head, sp = HEAD[h]
    inner = '\n' + ''.join(BODY[i] + '\n' for i in body)
    func = f'{PREFIX[pre][0]}{full}{head}{sp}{{{inner}}}\n'
    return AROUND[b], func, AROUND[a], full, inner


def render(case):
    return ''.join(build(case)[:3])


def kind(t):
    return {'A = ': 'Variable', '# c\n': 'Comment', 'def ': 'PythonBlock', 'do_o': 'Function', '\n': 'Item', 'inhe': 'Inherit',
            'pyth': 'Function', 'A[b]': 'FlagAssignment', 'B = ': 'Variable'}[t[:4]]


def run(case, env):
    from mc.engine import Obs
    pre, name, ov, style, h, body, b, a = case
    before, func, after, full, inner = build(case)
    p = env.write('foo_1.0.bb', before + func + after)
    res = env.stash().AddFile(p)
    want = [(kind(t), t) for t in (before, after) if t]
    want.insert(1 if before else 0, ('Function', func))
    same('items', [(type(x).__name__, x.RealRaw) for x in res], want)
    x = res[1 if before else 0]
    ovr = [OVR[i] for i in ov]
    n = '' if name is None else NAMES[name]
    cut = next((i for i, o in enumerate(ovr) if o in MARK), len(ovr))
    delim = style if ':' in full else '_'
    same('FuncName', x.FuncName, delim.join([n] + ovr[:cut]))
    same('SubItems', x.SubItems, ovr[cut:])
    same('SubItem', x.SubItem, delim.join(ovr[cut:]))
    same('FuncNameComplete', x.FuncNameComplete, full)
    same('IsPython', x.IsPython, PREFIX[pre][1])
    same('IsFakeroot', x.IsFakeroot, PREFIX[pre][2])
    same('IsAppend', x.IsAppend(), any(o in ('append', 'prepend') for o in ovr[cut:]))
    raw = textwrap.dedent(inner)
    same('FuncBodyRaw', x.FuncBodyRaw, raw)
    same('get_items', x.get_items(), raw.split('\n'))
    flat = inner.replace('\n', '').replace('\\', '\x1b')
    same('FuncBody', x.FuncBody.strip(), flat.strip())
    same('FuncBodyStripped', x.FuncBodyStripped, flat.replace('{', '').replace('}', '').strip())
    out = (x.FuncName, tuple(x.SubItems), x.IsPython, x.IsFakeroot, x.FuncBodyRaw)
    return Obs(states=[out], transitions=len(res), outcome=out)
