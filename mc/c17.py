"""C17: fingerprint."""
import itertools

from mc.lib import LARGE, SIZES, check, queries, same, snap, words_upto

ID = 'C17'
RULE = ('a case compares one file content or one history of additions, appends and removals (with one option set) with every other one; the '
        'reference identity of a history is the multiset of the visible item attributes per operation kind; equal histories are built '
        'with all queries in between, and once more with the stash finalized at the end')
ASSUMPTIONS = ['finalizing is done after the last addition, append or removal (it is a change of the stash, not a query)',
               'two histories with the same multisets of items in a different order are not compared',
               'the fingerprint is a SHA1 hash, collisions of the hash itself are out of scope']

BASE = {
    'foo_1.0.bb': 'A = "1"\nB += "2"\n# c\nrequire x.inc\ninherit k\ndo_x() {\n    a\n}\nC[d] = "e"\nunset F\nexport G = "h"\naddtask i after j before k # l\n'
                  'deltask m\nEXPORT_FUNCTIONS n o\ndef p(q):\n    pass\n\nR:append = "${@bb.utils.contains(\'a\', \'b\', \'c\', \'d\', d)}"\n',
}
SUBST = [
    ('A = "1"', 'A = "2"'), ('A = "1"', 'A="1"'), ('A = "1"', 'A ?= "1"'), ('A = "1"', 'AA = "1"'), ('A = "1"', 'A = " 1"'), ('A = "1"', 'A = "1" '),
    ('A = "1"', "A = '1'"), ('A = "1"', 'A:append = "1"'), ('A = "1"', 'A:remove = "1"'), ('A = "1"', 'A_append = "1"'), ('A = "1"', 'A = "1 \\\n"'),
    ('A = "1"', 'A = "1"\nA = "1"'), ('A = "1"\n', ''), ('A = "1"\n', '\nA = "1"\n'), ('# c', '#c'), ('# c', '# c '), ('# c', '# c\n# c'), ('# c', '# d'),
    ('require x', 'include x'), ('require x', 'require y'), ('require x', 'require  x'), ('inherit k', 'inherit_defer k'), ('inherit k', 'inherit k k'),
    ('inherit k', 'inherit l'), ('inherit k', 'inherit'), ('do_x()', 'do_y()'), ('do_x()', 'python do_x()'), ('do_x()', 'fakeroot do_x()'),
    ('do_x()', 'do_x:append()'), ('    a\n', '    b\n'), ('    a\n', '   a\n'), ('    a\n', '    a\n\n'), ('C[d]', 'C[e]'), ('C[d]', 'D[d]'),
    ('C[d] = "e"', 'C[d] = "f"'), ('C[d] = "e"', 'C[d] += "e"'), ('unset F', 'unset G'), ('unset F', 'unset F[g]'), ('export G', 'export H'),
    ('G = "h"', 'G = "i"'), ('export G = "h"', 'export G'), ('addtask i', 'addtask j'), ('after j', 'after k'), ('before k', 'before l'), ('# l', '# m'),
    ('after j before k', 'before k after j'), ('deltask m', 'deltask n'), ('n o', 'n p'), ('n o', 'o n'), ('def p', 'def q'), ('p(q)', 'p(r)'), ('pass', 'pasS'),
    ("'c'", "'x'"), ("'d', d", "'x', d"), ("bb.utils.contains('a', 'b', 'c', 'd', d)", 'c'), ("${@bb.utils.contains('a', 'b', 'c', 'd', d)}", 'c'),
    ("bb.utils.contains('a', 'b', 'c', 'd', d)", 'foo(d)'), ("bb.utils.contains('a', 'b', 'c', 'd', d)", 'fop(d)'), ('R:append', 'R_append'),
    ("'b'", "'e'"), ('q):\n    pass\n\n', 'q):\n    pass\n'), ('B += "2"\n# c', '# c\nB += "2"'),
]
NAMES = ['foo_1.0.bb', 'foo_1.1.bb', 'sub/foo_1.0.bb', 'foo_1.0.bbappend', 'foo_1.0.inc', 'foo_1.0.conf']
OPS = ['add r', 'add s', 'append i', 'append j', 'remove 0', 'remove 1', 'add p', 'append ij']
OPTS = list(itertools.product((False, True), repeat=2))
BOUNDS = {
    'quick': f'{len(SUBST) + 1} variants of a recipe with every kind of item and {len(NAMES)} file names, all pairs; all pairs of histories of length <= 3 over '
             f'{len(OPS)} operations; 4 option sets x all pairs of these with 12 variants; changes at up to 34 places of files, values, functions and names of up to 129 parts',
    'thorough': f'as quick, with all pairs of two-fold variants and histories of length <= 4 over {len(OPS)} operations',
}


def variants(double=False):
    b = BASE['foo_1.0.bb']
    res = [b]
    for o, n in SUBST:
        assert o in b, o
        res.append(b.replace(o, n, 1))
    if double:
        for (o, n), (o2, n2) in itertools.combinations(SUBST, 2):
            t = b.replace(o, n, 1)
            if o2 in t:
                res.append(t.replace(o2, n2, 1))
    return res


VAR = variants()
HIST = {n: [h for h in words_upto(range(len(OPS)), n)] for n in (3, 4)}
CH = 24


def cases(tier):
    deep = tier == 'thorough'
    yield ['text', 0]
    for i in range(0, len(HIST[4 if deep else 3]), CH):
        yield ['hist', 4 if deep else 3, i]
    for o in range(4):
        yield ['opts', o]
    for i in range(len(NAMES)):
        yield ['name', i]
    for i in range(len(VAR)):
        yield ['queried', i]
    for k in (LARGE if deep else SIZES):
        for shape in range(4):
            yield ['long', k, shape]
    if deep:
        yield ['text', 1]


def render(case):
    if case[0] == 'hist':
        return '\n'.join(' ; '.join(OPS[i] for i in h) for h in HIST[case[1]][case[2]:case[2] + CH])
    return repr(case)


def visible(items, root):
    return tuple(sorted(repr(snap(x, root)) for x in items))


def one(env, text, name='foo_1.0.bb', opts=(False, False), query=False):
    p = env.write(name, text)
    st = env.stash(new_style_override_syntax=opts[0], negative_inline=opts[1])
    if query:
        for _, q in queries(st, [p], len):
            q()
    res = st.AddFile(p)
    items = list(st.GetItemsFor())
    if query:
        for _, q in queries(st, [p], len):
            q()
        st.Finalize()
        for _, q in queries(st, [p], len):
            q()
    del res
    return visible([x for x in items], env.root) if not query else None, st.FingerPrint


def distinct(entries, what):
    """same fingerprint iff same identity"""
    byfp, byid = {}, {}
    for label, ident, fp in entries:
        check(isinstance(fp, str) and len(fp) > 8, f'{what}: unusable fingerprint {fp!r}')
        if fp in byfp and byfp[fp][1] != ident:
            check(False, f'{what}: same fingerprint for different content: {label!r} and {byfp[fp][0]!r}')
        byfp.setdefault(fp, (label, ident))
        if ident in byid and byid[ident][1] != fp:
            check(False, f'{what}: different fingerprints for the same content: {label!r} and {byid[ident][0]!r}')
        byid.setdefault(ident, (label, fp))
    return len(entries) * (len(entries) - 1) // 2


def history(env, hist, query):
    st = env.stash()
    made = {}
    ident = []
    for op in hist:
        verb, _, arg = OPS[op].partition(' ')
        if verb == 'add':
            items = st.AddFile(env.path({'r': 'r_1.bb', 's': 's_1.bb', 'p': 'p.inc'}[arg]))
            made.setdefault('have', []).extend(items)
            ident += [('add', repr(snap(x, env.root))) for x in items]
        elif verb == 'append':
            items = []
            for c in arg:
                x = env.stash().AddFile(env.path({'i': 'i.inc', 'j': 'j.inc'}[c]))[0]
                items.append(x)
            ident += [('append', repr(snap(x, env.root))) for x in items]
            st.Append(items if len(items) > 1 else items[0])
            made.setdefault('have', []).extend(items)
        else:
            have = made.get('have', [])
            k = int(arg)
            if len(have) > k:
                x = have.pop(k)
                ident.append(('remove', repr(snap(x, env.root))))
                st.Remove(x)
        if query:
            for _, q in queries(st, [env.path('r_1.bb')], len):
                q()
    if query == 2:
        st.Finalize()
        st.Finalize()
    return tuple(ident), st.FingerPrint


def run(case, env):
    from mc.engine import Obs
    env.write('x.inc', 'X = "1"\n')
    env.write('classes/k.bbclass', 'K = "1"\n')
    for n, t in (('r_1.bb', 'A = "1"\nB = "1"\n'), ('s_1.bb', 'A = "1"\nB = "2"\n'), ('p.inc', '# x\n'), ('i.inc', 'I = "1"\n'), ('j.inc', 'I = "2"\n')):
        env.write(n, t)
    how = case[0]
    if how == 'text':
        n = distinct([(t, *one(env, t)) for t in variants(bool(case[1]))], 'one file')
    elif how == 'long':
        _, k, shape = case

        def make(at, how):
            w = [f'w{i}' for i in range(k)]
            if at is not None:
                w[at:at + 1] = {'change': [w[at] + 'x'], 'drop': [], 'twice': [w[at]] * 2}[how]
            return [''.join(f'A{i % 5} += "{x}"\n' for i, x in enumerate(w)), 'A = "' + ' '.join(w) + '"\n', 'do_x() {\n' + ''.join(f'    {x}\n' for x in w) + '}\n',
                    'A' + ''.join(':' + x for x in w) + ' = "1"\n'][shape]
        ent = [(None, None, one(env, make(None, None))[1])]
        for at in range(0, k, max(1, k // 25)):
            for op in ('change', 'drop', 'twice'):
                ent.append(((at, op), (at, op), one(env, make(at, op))[1]))
        ent.append((None, None, one(env, make(None, None))[1]))
        n = distinct(ent, f'{k} parts')
    elif how == 'name':
        n = distinct([(nm, *one(env, VAR[case[1]], name=nm)) for nm in NAMES], 'file names')
    elif how == 'opts':
        ent = []
        for o in OPTS:
            for i in [0, 1, 5, 7, 9, 20, 25, 40, 51, 53, 54, 58]:
                vis, fp = one(env, VAR[i], opts=o)
                ent.append(((o, i), (o, vis), fp))
        n = distinct(ent, 'options')
        # a stash without content, too
        n += distinct([(o, o, env.stash(new_style_override_syntax=o[0], negative_inline=o[1]).FingerPrint) for o in OPTS], 'empty stashes')
        same('quiet does not matter', env.stash(quiet=True).FingerPrint, env.Stash(quiet=False).FingerPrint)
    elif how == 'queried':
        t = VAR[case[1]]
        same('fingerprint with queries in between', one(env, t, query=True)[1], one(env, t)[1])
        n = 1
    else:
        allh = HIST[case[1]]
        ent = []
        # order of operations is not part of the identity that is compared
        seen = {}
        for h in allh:
            ident, fp = history(env, h, 0)
            key = tuple(sorted(ident))
            seen.setdefault(fp, (h, key))
            if seen[fp][1] != key:
                check(False, f'same fingerprint for {[OPS[i] for i in h]} and {[OPS[i] for i in seen[fp][0]]}')
            ent.append((h, ident, fp))
        n = len(ent)
        for h in allh[case[2]:case[2] + CH]:
            ref = next(e for e in ent if e[0] == h)
            for q in (0, 1, 2):
                i2, fp2 = history(env, h, q)
                same(f'fingerprint of {[OPS[i] for i in h]} with queries={q}', fp2, ref[2])
                n += 1
    return Obs(states=[(how, case[1:])], transitions=n, outcome=(how, str(case[1:]), n))
