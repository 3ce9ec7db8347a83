"""C27: words of values."""
import itertools
import re

from mc.lib import VARS, check, same

ID = 'C27'
RULE = ('a case is a sequence of words with a layout (separators between them, text before the first and after the last, operator), written to a file together with other ones; the '
        'reference joins continued lines and splits at whitespace; compared are the words with and without version handling, of an overriding text and the multi-line verdict')
ASSUMPTIONS = ['a continuation stands next to whitespace or at the edge of the value', 'backslashes only occur in continuations and hex escapes (the library shows them as ESC)',
               'version handling is used for values whose parentheses are version constraints']

WORDS = ['a', '${B}', 'b-1.0_x', '(>= 1.0)', "'q'", '\\x41b', 'c=d', 'git://x;y=z', '(= ${V})', 'b\\x41', '(<<2)', '#x', 'd(>= 3)', '-', '\\x41\\x42', '${@f(d)}', "'r", 'ä', 'x\\x41y', '{', 'a,b']
SEPS = [' ', '   ', '\t', ' \\\n', ' \\\n    ', '\t\\\n\t', ' \\\n\\\n  ', ' \t ']
EDGE = ['', ' ', '\\\n', ' \\\n  ', '\t', '\\\n\\\n', '  \\\n\t']
OPS = [' = ', ' += ', '=', ' ?= ', ':append = ', '\t:=\t', ' =. ', ':remove = ', '_x-y = ', ' = \\\n    ']
BATCH = 96
MANY = [8, 15, 16, 17, 18, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]
NAMED = [[ws, ss, e, o] for ws, ss, e in (([0], [], (0, 0)), ([0, 3, 1], [0, 3], (0, 0)), ([2, 0, 8], [3, 4], (3, 3)), ([4, 6, 7], [1, 2], (1, 5)), ([3, 12, 10], [4, 7], (2, 6)), ([15, 11, 20], [0, 0], (0, 1)),
                                          ([9, 5, 18], [0, 4], (0, 0)), ([], [], (3, 0))) for o in (0, 1, 3, 4, 7)]
BOUNDS = {
    'quick': f'all sequences of <= 2 of {len(WORDS)} words x {len(SEPS)} separators x {len(EDGE)}^2 edges (operators in turn), all of <= 1 word x {len(OPS)} operators x edges, all of 3 of the first 9 words x '
             f'separators^2; all positions in the file; {len(NAMED)} values of {len(VARS)} well-known variables; values of up to {max(MANY)} words',
    'thorough': 'as quick with all sequences of 3 words and separators with two edges, and operators for two words',
}


def layouts(deep):
    k = 0
    for e in itertools.product(range(len(EDGE)), repeat=2):
        for o in range(len(OPS)):
            yield [], [], e, o
            for w in range(len(WORDS)):
                yield [w], [], e, o
    for w in itertools.product(range(len(WORDS)), repeat=2):
        for s in range(len(SEPS)):
            for e in itertools.product(range(len(EDGE)), repeat=2):
                k += 1
                if deep:
                    for o in range(len(OPS)):
                        yield list(w), [s], e, o
                else:
                    yield list(w), [s], e, (k + k // len(OPS)) % len(OPS)
    n = len(WORDS) if deep else 9
    for w in itertools.product(range(n), repeat=3):
        for s in itertools.product(range(len(SEPS)), repeat=2):
            k += 1
            yield list(w), list(s), (0, 0), k % 3
            if deep:
                yield list(w), list(s), (3, 2), k % 3


def cases(tier):
    k = 0
    it = layouts(tier == 'thorough')
    for n in MANY:
        for w in range(len(WORDS)):
            yield ['many', n, w]
    for n in range(len(VARS)):
        yield ['named', n]
    while True:
        b = list(itertools.islice(it, BATCH))
        if not b:
            return
        b = [[list(x) for x in y[:3]] + [y[3]] for y in b]
        yield b
        # the same in single quotes, the first values in all layouts
        if len(b[0][0]) < 2 or k % 4 == 0 or tier == 'thorough':
            yield ['single', b]
        k += 1


def build(lay):
    ws, ss, e, o = lay
    t = EDGE[e[0]]
    for i, w in enumerate(ws):
        t += (SEPS[ss[i - 1]] if i else '') + WORDS[w]
    t += EDGE[e[1]]
    return t, OPS[o]


def render(case):
    if case[0] == 'single':
        return render(case[1]).replace('"', "'")
    if case[0] == 'named':
        return f'values of {VARS[case[1]]}'
    if case[0] == 'many':
        return f'values of {case[1]} words around {WORDS[case[2]]}'
    return '\n'.join(f'V{i}{build(x)[1]}"{build(x)[0]}"' for i, x in enumerate(case))


def words(v):
    return v.replace('\\\n', ' ').split()


def unversioned(v):
    """without the constraints, by hand"""
    v = v.replace('\\\n', ' ')
    out = ''
    depth = 0
    for i, ch in enumerate(v):
        if ch == '(' and not out.endswith('@f'):
            depth += 1
        elif ch == ')' and depth:
            depth -= 1
        elif not depth:
            out += ch
    return out.split()


def many(case, env):
    """values of many words, all the same, alternating, and with many constraints"""
    _, n, w = case
    res = []
    x = WORDS[w]
    for ws in ([x] * n, [f'p{i}' if i % 2 else x for i in range(n)], [f'p{i}' for i in range(n - 1)] + [x], [f'p{i} (>= {i}.0)' for i in range(n)] + [x], [f'{x} (= 1)', *['q'] * n, 'r (<< 2)'] * 2):
        for sep in (' ', ' \\\n    ', '\t  '):
            res.append((sep.join(ws), [' = ', ':append = ', ' += '][len(res) % 3]))
    return res


def run(case, env):
    from mc.engine import Obs
    name = None
    quote = '"'
    if case[0] == 'single':
        quote, case = "'", case[1]
    if case[0] in ('many', 'named'):
        name = VARS[case[1]] if case[0] == 'named' else None
        case = many(case, env) if case[0] == 'many' else [build(x) for x in NAMED]
        pick = lambda lay: lay
    else:
        pick = build
    stmts = []
    for i, lay in enumerate(case):
        v, op = pick(lay)
        stmts.append(f'{name or f"V{i}"}{op}{quote}{v}{quote}')
    states, n = [], 0
    p = env.write('a_1.0.bb', '\n'.join(stmts))
    st = env.stash()
    items = [x for x in st.AddFile(p)]
    same('number of items', len(items), len(case))
    esc = '\x1b'
    for i, (x, lay) in enumerate(zip(items, case)):
        v, op = pick(lay)
        what = repr(stmts[i])
        check(type(x).__name__ == 'Variable', f'{what} became a {type(x).__name__}')
        plain = v.replace('${@f(d)}', '!!!inlineblock!!!')
        got = [w.replace(esc, '\\') for w in x.get_items()]
        same(f'words of {what}', got, words(plain))
        same(f'words of {what}, asked again', [w.replace(esc, '\\') for w in x.get_items()], words(plain))
        same(f'words without versions of {what}', [w.replace(esc, '\\') for w in x.get_items(versioned=True)], unversioned(plain))
        same(f'{what} is multi-line', x.IsMultiLine(), '\n' in stmts[i])
        if '\\x' not in v:
            flat = re.sub(r'\\\n', ' ', plain)
            if flat.strip().strip('"').strip():
                same(f'words of the overriding text {flat!r}', x.get_items(override=flat), words(flat))
                same(f'words of the overriding text in quotes {flat!r}', x.get_items(override=f'"{flat}"'), words(flat))
        n += 4
        states.append(tuple(got))
    return Obs(states=states, transitions=n, outcome=case)
