"""C02: parsing and querying are total."""
import itertools

from mc.lib import attrs, check, methods, pure, queries, words_upto

ID = 'C02'
RULE = ('a case is a text (all short strings over a syntax-character alphabet, all short sequences over a token '
        'alphabet, token sequences cut after every character, and pumped repetitions of every token pair); the oracle '
        'is that adding, finalizing, every query, every public attribute and method of every item and the expansion '
        'of every value return normally and within the CPU limit')
ASSUMPTIONS = ['text is valid UTF-8 without carriage returns',
               'a single execution that needs more than 40 s of CPU time counts as a hang']

CHARS = list('A="\\\n{}$@#()[]: \'a_;')
TOKENS = [
    '\n', 'A', ' = ', '"', '\\\n', '${', '}', '{', '${@', '(', ')', "'", ' ', '#', '[', ']', ':', ',',
    'inherit ', 'require ', 'addtask ', 'export ', 'unset ', 'def ', 'python ', 'do_x() {\n', 'EXPORT_FUNCTIONS ',
    'INHERIT', 'bb.utils.contains(', "d.getVar('", 'oe.utils.read_file(', '_append', 'SRC_URI', '*+?', '\t', '_',
]
MORE = [
    'include_all ', 'addpylib ', 'addfragments ', 'deltask ', 'fakeroot ', 'bb.utils.filter(', 'oe.utils.ifelse(',
    'oe.utils.conditional(', 'oe.utils.any_distro_features(', 'oe.utils.both_contain(', 'before ', 'after ', 'PACKAGES',
    'PACKAGES_DYNAMIC', '${PN}', 'http://', ';name=', '[x', '\x1b', '\x00', '\u00e9', '!!!inlineblock!!!', '??=', '-native',
    '/', '../', '.bbclass', '%',
]
FRAG = [
    'A = "${@bb.utils.contains(\'a\', \'b\', \'c\', \'d\', d)} ${@x(d)}"\n', 'do_x:append() {\n  a {\n b }\n}\n',
    'def f(a) -> str:\n    return "}"\n', 'addtask x after y before z # c\n', 'unset A[b]\n', 'A[b] += "c"\n',
    'A_append = " \\\n  b \\\n  c"\n', 'python () {\n}\n', 'inherit a b\n', 'require ${A}/x.inc\n', 'export A = "b"\n',
    'PACKAGES_DYNAMIC = "^a[ *b"\n', 'SRC_URI = "git://[a;name=b;x \\\n  ${A}"\n', 'EXPORT_FUNCTIONS do_x\n',
    'INHERIT += "a"\n', 'A = "${@oe.utils.read_file(\'/nothing\')}"\n', 'B = "${A}${B}${@d.getVar(\'B\', True)}"\n',
    'A = "${@${@${@"\n', 'addpylib ${LAYERDIR}/a b\n', 'addfragments a b c\n', '# a\n# b\n',
]
BOUNDS = {
    'quick': f'all strings of length <= 3 over {len(CHARS)} characters, all sequences of <= 3 of {len(TOKENS)} tokens and of '
             f'<= 2 of {len(TOKENS) + len(MORE)} tokens, {len(FRAG)} statements and pairs of them cut after every '
             'character of the second one, pairs of tokens repeated 40 times, tokens and statements up to 513 times, alone and in a value',
    'thorough': f'all strings of length <= 4 over {len(CHARS)} characters, all sequences of <= 3 of '
                f'{len(TOKENS) + len(MORE)} tokens, {len(FRAG)} statements and pairs of them cut after every '
                'character of the second one, pairs of tokens repeated 40 and 400 times',
}
BUDGET = {'quick': 420, 'thorough': 5400}


def cases(tier):
    deep = tier == 'thorough'
    both = TOKENS + MORE
    for x in FRAG:
        yield x
    for seq in words_upto(both, 2):
        yield ''.join(seq)
    for b in FRAG:
        for k in range(len(b)):
            yield b[:k]
    for k in (50, 100, 129, 257, 513) + ((1025, 2049) if deep else ()):
        for a in FRAG:
            yield a * k
            yield 'A = "' + a.replace('"', "'").replace('\n', ' ') * k + '"\n'
            yield a.rstrip('\n') + 'x' * k + '\n'
        for a in both:
            yield a * k
            yield 'A = "' + a * k + '"\n'
            yield 'A = "' + a * k
        for a, b in ('()', '{}', '[]', ('${', '}'), ('${@', '}'), ('"', '"'), ("f('", "')")):
            yield 'A = "' + a * k + b * k + '"\n'
            yield 'A = "' + (a + b) * k + b * k + '"\n'
    for k in (10, 50, 100):
        yield ''.join(f'A{i} = "${{A{i + 1}}} ${{A{i}}}"\n' for i in range(k))
        yield ''.join(f'A{i} = "${{A{(i + 1) % k}}}"\n' for i in range(k))
    for a, b in itertools.product(FRAG, repeat=2):
        for k in range(1, len(b) + 1, 1 if deep else 2):
            yield a + b[:k]
    for a, b in itertools.product(both, repeat=2):
        yield (a + b) * 40 + '\n'
        yield 'A = "' + (a + b) * 40 + '"\n'
        if deep:
            yield (a + b) * 400 + '\n'
    for seq in words_upto(CHARS, 4 if deep else 3):
        yield ''.join(seq)
    for seq in itertools.product(both if deep else TOKENS, repeat=3):
        yield ''.join(seq)


def render(case):
    return repr(case)


def drive(env, text, name='foo_1.0.bb'):
    """use everything there is on a file with that text"""
    p = env.write(name, text)
    st = env.stash()
    res = st.AddFile(p)
    st.Finalize()
    n = 0
    for _, q in queries(st, [p], len):
        q()
        n += 1
    pure(st, p)
    out = []
    for x in res:
        a = attrs(x)
        repr(x)
        methods(x)
        if hasattr(x, 'VarValue'):
            x.get_items(versioned=True)
            for v in x.get_items():
                st.GetScrComponents(v)
        for k, v in a.items():
            if isinstance(v, str) and k in ('VarValue', 'VarName', 'VarValueStripped', 'Value', 'Raw', 'IncName', 'Class', 'Path'):
                check(isinstance(st.ExpandTerm(p, v), str), f'expansion of {k} is no string')
                st.ExpandTerm(p, v, spare=['A'])
                if k.startswith('VarValue'):
                    st.ExpandTerm(p, v, objref=x)
                st.SafeLineSplit(v)
                x.safe_linesplit(v)
                n += 4
        out.append((type(x).__name__, len(x.RealRaw)))
    st.FingerPrint  # noqa: B018
    return tuple(out), n


def run(case, env):
    from mc.engine import Obs
    out, n = drive(env, case)
    return Obs(states=[out[:k] for k in range(1, len(out) + 1)], transitions=n, outcome=out)
