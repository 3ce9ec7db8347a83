"""C25: timed-out pattern operations."""
import itertools
import sys

import regex

from mc.lib import check, methods, norm, queries, same, snap

ID = 'C25'
RULE = ('a case is a scenario (files, then finalizing, all queries and expansions), the number k of a pattern operation counted over the whole scenario and a way of timing out (that one, '
        'that one and one of the next, all from there on, every one of a kind); the operation raises TimeoutError inside the regex module and the outcome must be the one of a run in which the '
        'guarded call answers its documented default instead; guarded and plain operations are compared over all patterns, texts and flags of a table')
ASSUMPTIONS = ['time limits are enforced by the regex module, which reports them as TimeoutError from the operation or, for finditer, from its iteration',
               'operations that are not run under a time limit are counted as never absorbed']

KINDS = ['search', 'split', 'match', 'sub', 'finditer']
SCEN = [
    {'a_1.0.bb': 'A = "x ${B}"\nB:append:machine = " y"\nrequire i.inc\ninherit k\n'},
    {'i.inc': 'B ?= "1"\n# c\n# d\nC_remove = "x"\nC[d] = "e"\nunset C\n'},
    {'a_1.0.bb': 'do_x:append() {\n    a ${B}\n}\npython do_y() {\n    pass\n}\ndef f(a):\n    pass\n\nB = "1 \\\n  2"\n'},
    {'a_1.0.bb': 'export E = "1"\nexport F\naddtask do_x after do_a do_b before do_c # z\ndeltask do_x\nEXPORT_FUNCTIONS do_x\naddpylib ${LAYERDIR}/lib x\naddfragments a b c\ninclude_all x\ninherit_defer k\nINHERIT += "k"\n'},
    {'a_1.0.bb': 'A = "${@bb.utils.contains(\'a\', \'b\', \'c\', \'d\', d)} ${@x(d.getVar(\'B\'))} ${@oe.utils.read_file(\'i.inc\')}"\nB = "${PN} ${PV} ${BPN} ${A} ${@d.getVar(\'A\')}"\n'},
    {'a_1.0.bb': 'PACKAGES =+ "${PN}-x"\nSRC_URI = "git://a;name=${PN}-z file://b"\nPACKAGES_DYNAMIC = "^a-.*"\nRDEPENDS:${PN} = "a (>= 1.0) b"\nX:class-native = "1"\n', 'a_%.bbappend': 'A += "1"\nB:remove = "2"\n'},
    {'a_1.0.bb': '${@bb.utils.contains("A", "b", "c", "d", d)}\nA:append = "${@oe.utils.conditional(\'A\', \'b\', \'c\', \'d\', d)}${@bb.utils.filter(\'A\', \'b\', d)}"\nA_x-y += "\\x41 b"\n junk\n'},
]
BASE = {'i.inc': 'B ?= "1"\n', 'classes/k.bbclass': 'A ?= "k"\n'}
PATS = ['a', 'a+', '(a)|(b)', '^a', 'a$', r'\s+', '', '(?P<n>b)', r'b(?=c)', '.', '[ab]c', 'x*', r'\bb', '(?i)A']
LIM = [-5, -1, 0, 1, 3, 64, 1000]
TEXTS = ['a b ' * 40, '', 'a', 'abc', 'a b\nc a', 'AbC', ' a\n b ', 'aaa', 'xyz', 'bcbc', 'ä a']
FLAGS = [0, regex.I, regex.M, regex.S, regex.M | regex.I]
SLOW = [('(a|aa)+c', 'a' * 60), ('((a|b|ab)*)*[xy]', 'ab' * 25 + 'c')]
BOUNDS = {
    'quick': f'{len(SCEN)} scenarios x every pattern operation timing out alone, x every operation and the next, x every 11th operation and all from there on, x all operations of each set of '
             f'kinds; {len(PATS)} patterns x {len(TEXTS)} texts x {len(FLAGS)} flags x 5 operations; real timeouts of {len(SLOW)} patterns',
    'thorough': 'as quick with all pairs of operations at most 60 apart and all suffixes',
}
NOPS = 1500
CH = 40


def cases(tier):
    deep = tier == 'thorough'
    for op in range(len(KINDS)):
        yield ['plain', op]
        yield ['real', op]
    for s in range(len(SCEN)):
        yield ['direct', s, 0]
        for r in range(1, len(KINDS) + 1):
            for ks in itertools.combinations(KINDS, r):
                yield ['kinds', s, list(ks)]
        for k in range(0, NOPS, CH):
            yield ['one', s, k]
            yield ['tail', s, k, 1 if deep else 11]
        for d in range(1, 61 if deep else 2):
            for k in range(0, NOPS, CH):
                yield ['two', s, k, d]


def render(case):
    return f'{case}: {SCEN[case[1]] if case[0] not in ("plain", "real") else KINDS[case[1]]}'


class Injector:
    """counts operations and fails the selected ones"""

    def __init__(self, which):
        self.which = which
        self.n = 0

    def hit(self, kind):
        self.n += 1
        return self.which(self.n - 1, kind)


class AtRegex(Injector):
    """TimeoutError from within the regex module"""

    def __enter__(self):
        # every module of the package that offers the functions
        mods = {id(m): m for n, m in sys.modules.items() if n == 'regex' or n.startswith('regex.')}
        if hasattr(regex, 'regex'):
            mods[id(regex.regex)] = regex.regex
        mods = [m for m in mods.values() if callable(getattr(m, 'finditer', None)) and not isinstance(m, type)]
        self.saved = [(m, k, getattr(m, k)) for m in mods for k in KINDS if callable(getattr(m, k, None))]
        real = {k: f for m, k, f in self.saved if m is regex}
        for m, k, _ in self.saved:
            setattr(m, k, self.make(k, real[k]))
        return self

    def make(self, kind, real):
        def f(*a, **kw):
            if not self.hit(kind):
                return real(*a, **kw)
            if kind == 'finditer':
                return self.late(real(*a, **kw))
            raise TimeoutError('regex timed out')
        return f

    def late(self, it):
        if self.n % 2:
            yield from itertools.islice(it, 1)
        raise TimeoutError('regex timed out')

    def __exit__(self, *exc):
        for m, k, f in self.saved:
            setattr(m, k, f)


class AtGuard(Injector):
    """the documented default from the guarded call"""

    def __enter__(self):
        from oelint_parser.rpl_regex import RegexRpl
        self.cls = RegexRpl
        self.saved = {k: RegexRpl.__dict__[k] for k in KINDS}
        for k in KINDS:
            setattr(RegexRpl, k, staticmethod(self.make(k, getattr(RegexRpl, k))))
        return self

    def make(self, kind, real):
        def f(*a, default=None, **kw):
            if not self.hit(kind):
                if default is not None:
                    kw['default'] = default
                return real(*a, **kw)
            if kind == 'sub':
                return '' if default is None else default
            if kind in ('split', 'finditer'):
                return default or []
            return default
        return f

    def __exit__(self, *exc):
        for k, f in self.saved.items():
            setattr(self.cls, k, f)


def scenario(env, s):
    """everything; returns the observations"""
    files = {**BASE, **SCEN[s]}
    paths = [env.write(f, t) for f, t in files.items()]
    st = env.stash(new_style_override_syntax=s == 0, negative_inline=s == 4)
    for p, f in zip(paths, files):
        if f not in BASE:
            st.AddFile(p)
    st.Finalize()
    out = []
    for x in st.GetItemsFor():
        out.append((snap(x, env.root), norm(tuple(methods(x).items()))))
        for n in ('get_items', ):
            if type(x).__name__ == 'Variable':
                out.append(x.get_items(versioned=True))
    for n, q in queries(st, [p for p, f in zip(paths, files) if f not in BASE], lambda items: [(x.RealRaw, x.Line) for x in items]):
        v = q()
        out.append((n, list(v.items()) if isinstance(v, dict) else v))
    for p in paths:
        out.append((st.GuessBaseRecipeName(p), st.SafeLineSplit('a b')))
    out.append(st.FingerPrint)
    env.clear_caches()
    return out


def short(o):
    return repr(o)[:300]


def compare(env, s, which, what):
    with AtRegex(which) as a:
        got = scenario(env, s)
    with AtGuard(which) as b:
        want = scenario(env, s)
    if a.n == b.n:
        for g, w in zip(got, want):
            check(g == w, f'{what}: {short(g)} instead of {short(w)}')
        same(f'{what}: number of answers', len(got), len(want))
    return a.n, repr(got)


_total = {}


def total(env, s):
    if s not in _total:
        with AtRegex(lambda i, k: False) as a:
            plain = scenario(env, s)
        check(plain == scenario(env, s), 'two runs differ')
        _total[s] = a.n
        if a.n > NOPS:
            e = RuntimeError('NOPS too small')
            e.harness = True
            raise e
    return _total[s]


def run(case, env):
    from mc.engine import Obs
    from oelint_parser.rpl_regex import RegexRpl
    how = case[0]
    states, n = [], 0
    outs = set()
    if how == 'plain':
        kind = KINDS[case[1]]
        f, r = getattr(RegexRpl, kind), getattr(regex, kind)

        def res(x):
            if x is None or isinstance(x, (str, list)) and kind != 'finditer':
                return x
            if kind == 'finditer':
                return [(m.span(), m.groups()) for m in x]
            return x.span(), x.groups(), x.groupdict()
        for p, t in itertools.product(PATS, TEXTS):
            for fl in FLAGS:
                a = [p, 'z<\\g<0>>', t] if kind == 'sub' else [p, t]
                variants = [((), {'flags': fl})]
                if kind == 'sub':
                    variants += [((), {'flags': fl, 'count': 1}), ((2, fl), {}), ((), {'flags': fl, 'pos': 1})]
                    variants += [((c,), {}) for c in LIM] + [((), {'count': c, 'flags': fl, 'timeout': 30}) for c in LIM] + [((), {'flags': fl, 'concurrent': False})]
                elif kind == 'split':
                    variants += [((), {'flags': fl, 'maxsplit': 1}), ((2, fl), {})]
                    variants += [((c,), {}) for c in LIM] + [((), {'maxsplit': c, 'flags': fl, 'timeout': 30}) for c in LIM] + [((), {'flags': fl, 'concurrent': False})]
                else:
                    variants += [((fl,), {}), ((), {'flags': fl, 'pos': 1}), ((), {'flags': fl, 'endpos': 2})]
                    variants += [((), {'flags': fl, 'partial': True})] if kind != 'finditer' else []
                    variants += [((), {'flags': fl, 'pos': c}) for c in LIM] + [((), {'flags': fl, 'endpos': c}) for c in LIM] + [((), {'flags': fl, 'pos': -3, 'endpos': -1, 'timeout': 30})]
                for pos, kw in variants:
                    same(f'{kind}{(*a, *pos)} {kw}', res(f(*a, *pos, **kw)), res(r(*a, *pos, **kw)))
                    n += 1
                    for d in ('dd', ['d']):
                        same(f'{kind} with an unused default', res(f(*a, *pos, default=d, **kw)), res(r(*a, *pos, **kw)))
                if not fl:
                    c = regex.compile(p)
                    b = [c, *a[1:]]
                    same(f'{kind} of a compiled {p!r} on {t!r}', res(f(*b)), res(r(*b)))
        return Obs(states=[case], transitions=n, outcome=case)
    if how == 'real':
        kind = KINDS[case[1]]
        f = getattr(RegexRpl, kind)
        for p, t in SLOW:
            a = [p, 'x', t] if kind == 'sub' else [p, t]
            for d in (None, 'dd', ['d']):
                kw = {} if d is None else {'default': d}
                got = f(*a, timeout=0.02, **kw)
                want = d if d is not None else {'sub': '', 'split': [], 'finditer': []}.get(kind)
                got = list(got) if kind == 'finditer' else got
                want = list(want) if kind == 'finditer' else want
                same(f'{kind} of {p} timing out, default {d}', got, want)
                n += 1
        return Obs(states=[case], transitions=n, outcome=case)
    s = case[1]
    if how == 'direct':
        # operations of a pattern that do not go through the functions of the regex module
        compiled = type(regex.compile('a'))
        seen = []

        def prof(frame, ev, arg):
            if ev != 'c_call' or type(getattr(arg, '__self__', None)) is not compiled:
                return
            if '/regex/' in frame.f_code.co_filename:
                frame = frame.f_back
            # not through a function of the module that can be replaced
            if '/oelint_parser/' in frame.f_code.co_filename:
                seen.append((arg.__name__, frame.f_code.co_name))
                if len(seen) == 1:
                    raise TimeoutError('regex timed out')
        with AtRegex(lambda i, k: False):
            sys.setprofile(prof)
            try:
                scenario(env, s)
            finally:
                sys.setprofile(None)
        return Obs(states=[case], transitions=1, outcome=case)
    t = total(env, s)
    if how == 'kinds':
        n, o = compare(env, s, lambda i, k: k in case[2], f'all of {case[2]} time out')
        return Obs(states=[case], transitions=n, outcome=(case, o))
    for k in range(case[2], min(case[2] + CH, t)):
        if how == 'tail':
            if k % case[3]:
                continue
            m, o = compare(env, s, lambda i, _: i >= k, f'all operations from {k} on time out')
        elif how == 'two':
            m, o = compare(env, s, lambda i, _: i in (k, k + case[3]), f'operations {k} and {k + case[3]} time out')
        else:
            m, o = compare(env, s, lambda i, _: i == k, f'operation {k} times out')
        n += m
        states.append((how, s, k, *case[3:]))
        outs.add(o)
    return Obs(states=states, transitions=n, outcome=(how, s, tuple(sorted(hash(o) for o in outs))))
