"""C06: override syntax detection is a per file latch."""
import itertools

from mc.lib import LARGE, SIZES, same, words_upto

ID = 'C06'
RULE = ('a case is a set of files given as sequences of statements and the way they come together (one file, include, class, '
        'bbappend, two recipes, two stashes, same file again); the reference is a two-state latch per parsed file that is set '
        'by a variable or function with ":" in its name')
ASSUMPTIONS = ['statements outside the alphabet do not carry override syntax']

# text, sets the latch, (kind, base, overrides in old mode, overrides in new mode) or None
ST = [
    ('A = "1"\n', False, ('A', []), ('A', [])),
    ('A_append = "1"\n', False, ('A', ['append']), ('A_append', [])),
    ('A:append = "1"\n', True, None, ('A', ['append'])),
    ('do_x_append() {\n    y\n}\n', False, ('do_x', ['append']), ('do_x_append', [])),
    ('do_x:append() {\n    y\n}\n', True, None, ('do_x', ['append'])),
    ('A[x:y] = "A:append"\n', False, None, None),
    ('A:append[x] = "1"\n', False, None, None),
    ('# A:append = "1"\n', False, None, None),
    ('B = "A:append:x ${A:b}"\n', False, ('B', []), ('B', [])),
    ('unset A:append\n', False, None, None),
    ('export A:append = "1"\n', False, None, None),
    ('FILES_${PN}-dev = "1"\n', False, ('FILES', ['${PN}-dev']), ('FILES_${PN}-dev', [])),
    ('FILES:${PN} += "1"\n', True, None, ('FILES', ['${PN}'])),
    ('python () {\n    a:b\n}\n', False, ('', []), ('', [])),
    ('inherit x:y\n', False, None, None),
    ('addtask do_x after do_y\n', False, None, None),
    ('def f(a: b):\n    A:append\n', False, None, None),
    ('\n', False, None, None),
    ('require no:such.inc\n', False, None, None),
    ('python do_y:class-native() {\n    z\n}\n', True, None, ('do_y', ['class-native'])),
    ('D:append = "${@foo(d)}"\n', True, None, ('D', ['append'])),
    ('D = "${@a:append}"\n', False, ('D', []), ('D', [])),
    ('D_append = "${@foo(d)} \\\n ${@bb.utils.contains(\'A:append\', \'x\', \'b:c\', \'\', d)}"\n', False, ('D', ['append']), ('D_append', [])),
]
SMALL = [0, 1, 2, 3, 4, 8, 11, 6]
JOIN = ['include', 'class', 'append', 'append-first', 'two', 'stashes', 'again', 'nested', 'conf', 'again-include']
BOUNDS = {
    'quick': f'all sequences of <= 3 of {len(ST)} statements with and without forcing; all ways ({len(JOIN)}) of combining two files of '
             f'<= 2 of {len(SMALL)} statements; every statement after up to 129 others',
    'thorough': f'all sequences of <= 4 of {len(ST)} statements with and without forcing; all ways ({len(JOIN)}) of combining two files '
                f'of <= 2 of {len(ST)} statements',
}


def cases(tier):
    deep = tier == 'thorough'
    for seq in words_upto(range(len(ST)), 4 if deep else 3):
        for force in (0, 1):
            yield ['one', force, [list(seq)]]
    # the switch comes late, or never
    for k in (LARGE if deep else SIZES):
        for j in range(len(ST)):
            for i in (0, 1, 3, 8, 11):
                yield ['one', 0, [[i] * k + [j, 1, 3]]]
            yield ['one', 1, [[j] * k + [1]]]
            yield ['one', 0, [[j] * k + [1, 2, 3]]]
            yield [JOIN[(k + j) % len(JOIN)], 0, [[0] * k + [j, 1], [1] * k + [0]]]
    pool = range(len(ST)) if deep else SMALL
    for how in JOIN:
        for s1 in words_upto(pool, 2):
            for s2 in words_upto(pool, 2):
                for force in (0, 1):
                    yield [how, force, [list(s1), list(s2)]]


def text(seq):
    return ''.join(ST[i][0] for i in seq)


def render(case):
    return f'{case[0]} forced={case[1]}\n' + '\n-----\n'.join(text(s) for s in case[2])


def latch(seq, force):
    on = bool(force)
    out = []
    for i in seq:
        t, sets, old, new = ST[i]
        on = on or sets
        out.append((t, on, new if on else old))
    # directly consecutive comments are one item, blank lines belong to a preceding def
    res = []
    for t, on, e in out:
        if res and t[0] == '#' and res[-1][0][0] == '#':
            res[-1] = (res[-1][0] + t, res[-1][1], e)
        elif res and t == '\n' and res[-1][0].startswith('def '):
            res[-1] = (res[-1][0] + t, *res[-1][1:])
        else:
            res.append((t, on, e))
    return res


def compare(items, want, what):
    same(f'{what}: texts', [x.RealRaw for x in items], [t for t, _, _ in want])
    for x, (t, on, exp) in zip(items, want):
        same(f'{what}: delimiter at {t!r}', x.OverrideDelimiter, ':' if on else '_')
        same(f'{what}: new style at {t!r}', x.IsNewStyleOverrideSyntax, on)
        if exp is not None and type(x).__name__ in ('Variable', 'Function'):
            name = x.VarName if type(x).__name__ == 'Variable' else x.FuncName
            same(f'{what}: decomposition of {t!r}', (name, x.SubItems), exp)


def run(case, env):
    from mc.engine import Obs
    how, force, seqs = case
    kw = {'new_style_override_syntax': bool(force)}
    parts = []

    def of(st, p):
        return [x for x in sorted(st.GetItemsFor(filename=p, nolink=True), key=lambda x: x.InFileLine)]

    if how == 'one':
        p = env.write('a_1.bb', text(seqs[0]))
        parts.append((env.stash(**kw).AddFile(p), latch(seqs[0], force)))
    else:
        s1, s2 = seqs
        half = len(s1) // 2 if len(s1) > 1 else 0
        if how == 'again-include':
            o = env.write('i.inc', text(s2))
            p = env.write('a_1.bb', text(s1) + 'require i.inc\n')
            st = env.stash(**kw)
            seen = []
            for _ in range(2):
                parts.append(([x for x in st.AddFile(p) if x.RealRaw != 'require i.inc\n'], latch(s1, force)))
                now = of(st, o)
                parts.append(([x for x in now if not any(x is y for y in seen)], latch(s2, force)))
                seen = now
        elif how in ('include', 'class', 'nested'):
            other = 'classes/i.bbclass' if how == 'class' else 'i.inc'
            o = env.write(other, text(s2))
            stm = 'inherit i\n' if how == 'class' else 'require i.inc\n'
            if how == 'nested':
                env.write('m.inc', 'require i.inc\n')
                stm = 'require m.inc\n'
            p = env.write('a_1.bb', text(s1[:half]) + stm + text(s1[half:]))
            st = env.stash(**kw)
            st.AddFile(p)
            pos = latch(s1[:half], force)
            on = pos[-1][1] if pos else bool(force)
            got = of(st, p)
            i = next(k for k, x in enumerate(got) if x.RealRaw == stm)
            same('delimiter of include', got[i].OverrideDelimiter, ':' if on else '_')
            # the statement separates, the latch continues
            parts.append((got[:i], pos))
            parts.append((got[i + 1:], latch(s1[half:], on)))
            parts.append((of(st, o), latch(s2, force)))
        else:
            n2 = {'append': 'a_%.bbappend', 'append-first': 'a_%.bbappend', 'conf': 'x.conf'}.get(how, 'b_1.bb')
            p1 = env.write('a_1.bb', text(s1))
            p2 = env.write(n2, text(s2))
            st = env.stash(**kw)
            st2 = env.stash(**kw) if how == 'stashes' else st
            if how == 'append-first':
                st2.AddFile(p2)
                st.AddFile(p1)
            else:
                st.AddFile(p1)
                st2.AddFile(p2)
            if how == 'stashes':
                fresh = env.stash(new_style_override_syntax=not force)
                parts.append((fresh.AddFile(p1), latch(s1, not force)))
            if how == 'again':
                parts.append((st.AddFile(p1), latch(s1, force)))
                parts.append((of(st2, p2), latch(s2, force)))
            else:
                parts.append((of(st, p1), latch(s1, force)))
                parts.append((of(st2, p2), latch(s2, force)))
            st.Finalize()
    n = 0
    for items, want in parts:
        compare(items, want, how)
        n += len(want)
    out = tuple(tuple((x.RealRaw, x.OverrideDelimiter) for x in items) for items, _ in parts)
    return Obs(states=[p[:k] for p in out for k in range(1, len(p) + 1)], transitions=n, outcome=out)
