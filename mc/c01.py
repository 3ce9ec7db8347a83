"""C01: the items of a file partition its text, with true line numbers."""
import itertools

from mc.lib import HUGE, LARGE, check, same, words_upto

ID = 'C01'
RULE = ('a case is a sequence of raw lines taken from an alphabet of lines (statement starts, continuations, block '
        'openers and closers, comments, blanks, odd separators), with or without a final newline, written to one file; '
        'the reference is the text itself: concatenated RealRaw, running newline count, identity of returned and '
        'stored items')
ASSUMPTIONS = ['files are decoded as UTF-8 with universal newlines; carriage returns are not part of the alphabet',
               'lines outside the alphabet behave like one of its members (the line splitter only looks at '
               'continuations, braces, comment and block openers)']

LINES = [
    'A = "1"',
    '',
    '# comment',
    'B = "1 \\',
    '    2 \\',
    '    3"',
    'do_x() {',
    '    foo',
    '}',
    'def f(d):',
    '    return 1',
    '  # indented',
    'python () {',
    '    if a { b; } fi',
    '_x = 1',
    'plain text !',
    # ---- the rest does not interact with the line splitter as such
    'C = "2 \\  ',
    '   ',
    '}}',
    '# comment do_y() {',
    'D = "${@bb.utils.contains(\'A\', \'b\', \'c\', \'d\', d)}"',
    'E = "${@foo(d)} ${@"',
    'F = "a\x0cb\u2028c\x1bd\x85e"',
    'inherit nothing',
    'addtask do_x after do_y',
    'export G = "1"',
    'A[x] = "1"',
    'fakeroot python do_z:append() {',
    '\t# tab',
    'unset A',
]
CORE = LINES[:16]
CHARS = [chr(i) for i in range(32, 127)] + ['\t', '\x0b', '\x0c', '\x1b', '\x1c', '\x85', '\xa0', '\u2028', '\u2029', '\u3000', '\ufeff', '\xe9', '\U0001f600', '\x00', '\x7f']
TAIL = [x for x in LINES if x not in CORE]
BOUNDS = {
    'quick': f'all sequences of length <= 3 over {len(LINES)} lines and of length 4 over {len(CORE)} block forming lines, '
             f'each with and without final newline; length <= 1 for 5 file kinds x 4 parse options; lines of one or two of {len(CHARS)} characters in 7 contexts; every pair of lines 25 times in a row; every line up to 600 times, or after up to 600 assignments',
    'thorough': f'all sequences of length <= 4 over {len(LINES)} lines and of length 5 over {len(CORE)} block forming lines, '
                'each with and without final newline; length <= 2 for 5 file kinds x 4 parse options; every pair of lines 60 times in a row; every line up to 2049 times, or after up to 2049 assignments',
}
KINDS = ['a_1.0.bb', 'a.inc', 'a.bbclass', 'a.conf', 'b_1.0.bbappend']


def cases(tier):
    deep = tier == 'thorough'
    for seq in words_upto(range(len(LINES)), 1 + deep, 1):
        for kind in range(len(KINDS)):
            for opt in range(4):
                yield [list(seq), 1, kind, opt]
    # lines of a single character, or two
    for c in CHARS:
        for ctx in ([c], ['A = "1"', c], [c, 'A = "1"'], ['# x', c, c, '# x'], ['def f(d):', '    x', c, 'A = "1"'], ['do_x() {', c, '}', c], ['A = "1 \\', c, '2"', c]):
            for nl in (0, 1):
                if c != '\\' or ctx[0][0] not in 'A#':
                    yield [ctx, nl, 0, 0]
    for c in itertools.product(CHARS if deep else CHARS[::3], repeat=2):
        if '\\' not in c:
            yield [['A = "1"', ''.join(c)], 0, 0, 0]
            yield [['# x', ''.join(c), 'A = "1"'], 1, 0, 0]
    # long files: every pair of lines many times in a row
    for a, b in itertools.product(range(len(LINES)), repeat=2):
        yield [[a, b] * (60 if deep else 25), 1, 0, 0]
    # at and around the sizes an implementation may treat differently
    for a in range(len(LINES)):
        for k in (HUGE if deep else LARGE[::2]):
            yield [[a] * k, k % 2, 0, 0]
            yield [[0] * k + [a], 1 - k % 2, 0, 0]
    n = 4 if deep else 3
    for seq in words_upto(range(len(LINES)), n, 0):
        for nl in (1, 0):
            if seq or not nl:
                yield [list(seq), nl, 0, 0]
    for seq in itertools.product(range(len(CORE)), repeat=n + 1):
        yield [list(seq), 1, 0, 0]
        yield [list(seq), 0, 0, 0]


def text(case):
    seq, nl, _, _ = case
    t = ''.join((i if isinstance(i, str) else LINES[i]) + '\n' for i in seq)
    return t if nl else t[:-1]


def render(case):
    return f'file {KINDS[case[2]]}, new syntax={bool(case[3] & 1)}, negative={bool(case[3] & 2)}:\n{text(case)!r}'


def run(case, env):
    from mc.engine import Obs
    t = text(case)
    p = env.write(KINDS[case[2]], t)
    st = env.stash(new_style_override_syntax=bool(case[3] & 1), negative_inline=bool(case[3] & 2))
    res = st.AddFile(p)
    same('concatenated raw texts', ''.join(x.RealRaw for x in res), t)
    line = 1
    for x in res:
        same(f'in-file line of {x.RealRaw!r}', x.InFileLine, line)
        same(f'line of {x.RealRaw!r}', x.Line, line)
        same('origin', x.Origin, p)
        check(x.RealRaw != '', 'item without text')
        check(x.RealRaw.endswith('\n') or x is res[-1], f'item ends within a line: {x.RealRaw!r}')
        line += x.RealRaw.count('\n')
    stored = list(st.GetItemsFor(filename=p))
    same('items in the stash', [id(x) for x in stored], [id(x) for x in sorted(res, key=lambda x: x.Line)])
    same('all items in the stash', [id(x) for x in st.GetItemsFor()], [id(x) for x in stored])
    out = tuple((type(x).__name__, x.RealRaw) for x in res)
    return Obs(states=[out[:k] for k in range(1, len(out) + 1)], transitions=len(res), outcome=out)
