"""C07: known inline calls are replaced by the selected branch."""
import itertools
import re

from mc.lib import LARGE, SIZES, VARS, same, words_upto

ID = 'C07'
RULE = ('a case is a value assembled from literal texts and inline calls (helper, argument texts, quoting, spacing), an assignment '
        'form and the inline mode; the reference replaces each call by the argument of the selected outcome')
ASSUMPTIONS = ['arguments are quoted strings without the quoting character, without unbalanced braces and without other helper names',
               'for bb.utils.filter and oe.utils.both_contain the true outcome is the first/third argument and the false one is empty']

TEXTS = ['x', '', 'a b', 'a,b', 'a(b)', 'a)b', '-f ${S}/y', 'k=v', '--with-a="b"', 'x.inc', "it's", '0', 'd', 'foo,,bar', '${A}',
         'bar, d', '#a', 'a:b+c', '${@', ' x ']
TEXTS = [t for t in TEXTS if t != '${@']
LAY = [('', '', ', ', ''), (' ', ' ', ', ', ''), ('', '', ',', ''), ('', '', ' , ', ' '), (' ', '', ',  ', ' '), ('', '', ', \\\n    ', '')]


# helper -> (function of (T, F, quote) giving the argument list, true outcome, false outcome)
def _h(name, pre, post, kind='tf'):
    return (name, pre, post, kind)


HELPERS = [
    _h('bb.utils.contains', ["'V'", "'w'"], ['d']),
    _h('bb.utils.contains_any', ["'V'", "'w1 w2'"], ['d']),
    _h('oe.utils.conditional', ["'V'", "'w'"], ['d']),
    _h('oe.utils.ifelse', ["d.getVar('V') == 'w'"], []),
    _h('oe.utils.ifelse', ['True'], []),
    _h('oe.utils.any_distro_features', ['d', "'w1 w2'"], []),
    _h('oe.utils.all_distro_features', ['d', "'w1 w2'"], []),
    _h('oe.utils.any_distro_features', ['d', "'w1 w2'"], [], 't'),
    _h('oe.utils.all_distro_features', ['d', "'w1 w2'"], [], 't'),
    _h('oe.utils.any_distro_features', ['d', "'w1 w2'"], [], ''),
    _h('oe.utils.all_distro_features', ['d', '"w1"'], [], ''),
    _h('oe.utils.vartrue', ["'V'"], ['d']),
    _h('oe.utils.less_or_equal', ["'V'", "'2'"], ['d']),
    _h('oe.utils.version_less_or_equal', ["'V'", "'2.0'"], ['d']),
    _h('oe.utils.both_contain', ["'V'", "'W'"], ['d'], 'both'),
    _h('bb.utils.filter', [], ["'w1 w2'", 'd'], 'both'),
    _h('d.getVar', [], [], 'get'),
    _h('d.getVar', [], ['True'], 'get'),
    _h('d.getVar', [], ['False'], 'get'),
    _h('bb.utils.contains', ['"V,W"', '"w(1)"'], ['d']),
]
NT = {'tf': 2, 't': 1, '': 0, 'both': 1, 'get': 1}
# names of variables that begin or end like parts of the call
ASKED = re.compile(r"""(['"])(V|w|w1 w2|2|2\.0)\1""")
GET = ['VAR', 'datadir', 'd', 'PN', 'False', 'A_TrueB', 'get', 'DISTRO_FEATURES', 'x-y.z', '_d_', 'e0'] + VARS
NG = 11
FORMS = [('A = "', '"\n'), ('A += "', '"\n'), ('A ?= "', '"\n'), ('A:append = "', '"\n'), ('A_remove = "', '"\n'), ('A .= "', '"\n'),
         ('FILES:${PN} = "', '"\n'), ('A ??= "', '"\n'), ('A := "a \\\n', '\\\n b"\n'), ('A=" ', ' "\n'), ("A = '", "'\n"), ("A:append = ' ", " ' \n")]
PAD = [('', ''), ('pre', 'post'), ('a ', ' b'), ('${X}/', '}'), ('(', ')'), ('a \\\n  ', ' \\\n  b'), ('{', ',d)'), ("'", "'"), ('@', ' # c')]
PAD = [p for p in PAD if '}' not in p[1] or '{' in p[0]]
BLOCKS = [[0, 0, 1], [0, 2, 0], [3, 1, 5], [8, 6, 0], [14, 9, 0], [16, 0, 0], [9, 0, 0], [11, 7, 7], [15, 13, 0], [1, 3, 4]]
# what the helper is asked for: (variable, word)
ASKS = [('V', 'w')] + [(v, 'w') for v in VARS] + [('V', w) for w in ('x', 'a b', 'systemd', 'x11 wayland  y', '', ' ', 'w-1', 'w_x.2', '${X}', 'a,b', 'a(b', 'a)b', '1', '0', 'True', 'no', 'd', 'a=b', 'a/b:c', '${A}-${B}', '#x', '>= 1',
                                                               'yes', 'w w', 'pam', 'V', 'contains', 'true', '*', '[a]', 'a|b', 'a\\tb')]
BOUNDS = {
    'quick': f'{len(HELPERS)} helper forms x all pairs of {len(TEXTS)} argument texts x 2 quotes x {len(LAY)} layouts; x {len(FORMS)} '
             f'assignment forms x {len(PAD)} surroundings; all sequences of <= 3 of {len(BLOCKS)} calls with separators; both modes; {len(ASKS)} variables and words asked for x helpers x quotes; up to 129 calls in a value, arguments of up to 129 words',
    'thorough': f'as quick with the full product of argument texts, quotes, layouts, forms and surroundings and sequences of <= 4 calls',
}


def quoted(t, q):
    if q in t:
        q = '"' if q == "'" else "'"
    return q + t + q


def call(h, t, f, q, lay, ask=0, rep=1):
    """(text of the block, true outcome, false outcome)"""
    name, pre, post, kind = HELPERS[h]
    if ask:
        pre, post = ([ASKED.sub(lambda m: m.group(1) + {'V': ASKS[ask][0], 'w': ASKS[ask][1]}.get(m.group(2), m.group(2) + ASKS[ask][1]) + m.group(1), x) for x in xs] for xs in (pre, post))
    T, F = ('', '') if kind == 'get' else (' '.join([TEXTS[t]] * rep), ','.join([TEXTS[f]] * rep))
    qt, qf = quoted(T, q), quoted(F, q)
    if kind == 'tf':
        args, res = pre + [qt, qf] + post, (T, F)
    elif kind == 't':
        args, res = pre + [qt] + post, (T, '')
    elif kind == '':
        args, res = pre + post, ('1', '')
    elif kind == 'both':
        args, res = pre + [qt] + post, (T, '')
    else:
        args, res = pre + [q + GET[t] + q] + post, ('${%s}' % GET[t],) * 2
    o, i, sep, e = LAY[lay]
    return '${@' + o + name + '(' + i + sep.join(args) + e + ')' + e + '}', *res


def cases(tier):
    deep = tier == 'thorough'
    for h in range(len(HELPERS)):
        n = NT[HELPERS[h][3]]
        for q in "'\"":
            for lay in range(len(LAY)):
                for t in range(len(TEXTS) if n else 1) if HELPERS[h][3] != 'get' else range(len(GET)):
                    for f in range(len(TEXTS) if n == 2 else 1):
                        for neg in (0, 1):
                            yield [neg, 0, 0, [[h, t, f, q, lay]]]
                            if deep:
                                for form in range(len(FORMS)):
                                    for pad in range(len(PAD)):
                                        yield [neg, form, pad, [[h, t, f, q, lay]]]
    for h in range(len(HELPERS)):
        for ask in range(1, len(ASKS)) if HELPERS[h][3] != 'get' else ():
            for q in "'\"":
                for lay in (0, 1):
                    for neg in (0, 1):
                        yield [neg, ask % 3, ask % 2, [[h, 0, 2, q, lay, ask]]]
    # long arguments
    for h in range(len(HELPERS)):
        for k in (LARGE if deep else SIZES) if NT[HELPERS[h][3]] and HELPERS[h][3] != 'get' else ():
            for t, f in ((0, 2), (6, 3), (4, 14), (10, 5)):
                for q in "'\"":
                    yield [k % 2, k % 3, 0, [[h, t, f, q, k % 2, 0, k]]]
                yield [t % 4 // 2, 0, 1, [[0, 0, 1, "'", 0], [h, t, f, "'", 0, 0, k], [16, 0, 0, "'", 0]]]
    for h in range(len(HELPERS)):
        for form in range(len(FORMS)):
            for pad in range(len(PAD)):
                for lay in (0, 1, 5):
                    for t in (0, 1, 6):
                        for neg in (0, 1):
                            yield [neg, form, pad, [[h, t, 2, "'", lay]]]
    for k in (LARGE if deep else SIZES):
        for i in range(len(BLOCKS)):
            for pad in (0, 2, 5):
                yield [k % 2, i, pad, [BLOCKS[i] + ["'", 0]] * k]
                yield [k % 2, 0, pad, [BLOCKS[(i + j) % len(BLOCKS)] + ['\'"'[j % 2], j % 5] for j in range(k)]]
    for seq in words_upto(range(len(BLOCKS)), 4 if deep else 3, 2):
        for pad in (0, 1, 2, 5):
            for neg in (0, 1):
                yield [neg, 0, pad, [BLOCKS[i] + ["'", 0] for i in seq]]


def build(case):
    neg, form, pad, blocks = case
    raw, val = '', ''
    for b in blocks:
        t, T, F = call(*b)
        raw += PAD[pad][0] + t + PAD[pad][1]
        val += PAD[pad][0] + (F if neg else T) + PAD[pad][1]
    a, z = FORMS[form]
    return a + raw + z, a + val + z


def render(case):
    return f'negative={bool(case[0])}: {build(case)[0]}'


def run(case, env):
    from mc.engine import Obs
    text, want = build(case)
    p = env.write('foo_1.0.bb', text)
    res = env.stash(negative_inline=bool(case[0])).AddFile(p)
    same('items', [(type(x).__name__, x.RealRaw) for x in res], [('Variable', text)])
    # what the value is when the branch is written in place of the call
    plain = env.stash().AddFile(env.write('plain.bb', want))
    same('items of the text with the branches', [(type(x).__name__) for x in plain], ['Variable'])
    x, y = res[0], plain[0]

    def flat(v):
        return v

    same('VarValue', x.VarValue, y.VarValue)
    same('VarValueStripped', x.VarValueStripped, y.VarValueStripped)
    same('words', x.get_items(), y.get_items())
    same('name', (x.VarNameComplete, x.VarOp), (y.VarNameComplete, y.VarOp))
    same('Raw', x.Raw, want)
    form = FORMS[case[1]]
    head = form[0].replace('\n', '').replace('\\', '\x1b')
    tail = form[1].rstrip('\n').replace('\n', '').replace('\\', '\x1b')
    body = want[len(form[0]):len(want) - len(form[1])].replace('\n', '').replace('\\', '\x1b')
    # a continuation is shown as ESC, with or without a blank that keeps it from reading like a hex escape
    same('value', x.VarValue.replace('\x1b x', '\x1bx'), (head[head.index("'" if "'" in head else '"'):] + body + tail).replace('\x1b x', '\x1bx'))
    out = (x.VarValue, x.VarNameComplete, x.VarOp)
    return Obs(states=[out], transitions=len(case[3]), outcome=out)
