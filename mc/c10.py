"""C10: no stale answers."""
import itertools

from mc.engine import Violation, fresh
from mc.lib import queries, same, words_upto

ID = 'C10'
RULE = ('a case is a history of operations on a stash and a warm-up plan; the stash that was queried along the way (all queries after '
        'every operation, all queries twice after a single operation, or one single query after every operation) is compared, query by '
        'query, with two stashes of the same history that were never queried before (asked in opposite orders)')
ASSUMPTIONS = ['the file system does not change between queries', 'returned containers are not modified by the caller']

FILES = {
    'foo_1.0.bb': 'require x.inc\nA = "${PN} ${B}"\nPACKAGES += "foo-x"\nSRC_URI = "git://a;name=n1"\nPACKAGES_DYNAMIC = "^foo-d.*"\n',
    'x.inc': 'B = "b"\nPACKAGES =+ "inc"\n',
    'foo_%.bbappend': 'A:append = " app"\nSRC_URI += "git://b;name=n2"\ninherit core-image packagegroup\nB = "3"\n',
    'bar.bb': 'A = "bar"\nrequire x.inc\ninherit k\n',
    'classes/k.bbclass': 'A = "k"\nPACKAGES_DYNAMIC += "^foo-x"\n',
    'l.conf': 'A = "conf"\n',
    'one/file.txt': '',
    'empty.bb': '',
    'foo_1.%.bbappend': '',
    'none_1.bbappend': '',
    'c.conf': '# only a comment\n',
    'i.conf': '\n',
}
EXTRA = ('A = "extra"\nPACKAGES += "extra"\nPACKAGES_DYNAMIC = "^foo-x"\nIMAGE_INSTALL = "x"\ninherit packagegroup\n'
         'SRC_URI += "file://z;name=n3"\nunset B\n')
OPS = ['add foo_1.0.bb', 'add foo_%.bbappend', 'add bar.bb', 'final', 'append foo_1.0.bb', 'remove', 'append x.inc', 'add l.conf',
       'append lone_1.bbappend', 'remove2', 'add x.inc', 'add classes/k.bbclass', 'add empty.bb',
       'add foo_1.%.bbappend', 'add none_1.bbappend', 'add nothing.bb', 'add c.conf', 'add i.conf',
       'link classes/k.bbclass', 'link foo_%.bbappend', 'link x.inc', 'link l.conf']
BOUNDS = {
    'quick': f'all histories of length <= 2 over {len(OPS)} operations and of length 3 over 9 of them with all queries asked after every operation; all of length 2 over '
             '13 of them with each single query asked after each operation; all of length 4 over the first 5 operations; every operation up to 33 times',
    'thorough': f'all histories of length <= 4 over {len(OPS)} operations with all queries asked after every operation; all of length <= 3 '
                'with each single query asked after each operation (first 9 operations); all of length 5 over the first 7 operations',
}
ASK = ['foo_1.0.bb', 'x.inc', 'bar.bb', 'foo_%.bbappend', 'classes/k.bbclass', 'empty.bb']


def cases(tier):
    deep = tier == 'thorough'
    for h in words_upto(range(len(OPS)), 4 if deep else 2, 1):
        yield [list(h), 'all']
    if not deep:
        for h in itertools.product(range(9), repeat=3):
            yield [list(h), 'all']
    for k in ((5, 9, 16, 17, 20, 32, 33, 50, 65) if deep else (5, 9, 17, 33)):
        for a in range(len(OPS)):
            yield [[0, *[a] * k, 3], 'all']
            if deep or k < 33:
                yield [[0, 2, 7, *[a, 4] * (k // 2), 5], 'all']
    for h in words_upto(range(9 if deep else 13), 3 if deep else 2, 2):
        yield [list(h), 'single']
    for h in itertools.product(range(7 if deep else 5), repeat=5 if deep else 4):
        yield [list(h), 'all']


def render(case):
    return ' ; '.join(OPS[i] for i in case[0]) + f' ; warm-up: {case[1]}'


def ids(items):
    return [(x.RealRaw, x.Origin, x.Line, x.InFileLine) for x in items]


def execute(env, hist, warm):
    """run a history; warm(stash, step) is called after every operation"""
    # prepared before the stash exists: building items in another stash may itself reset caches
    preps = []
    for op in hist:
        verb, _, arg = OPS[op].partition(' ')
        if verb == 'append':
            p = env.path(arg)
            text = env._content.get(p)
            env.write(arg, EXTRA)
            items = env.stash().AddFile(p)
            if text is not None:
                env.write(arg, text)
            preps.append(items if arg != 'x.inc' else items[0])
        else:
            preps.append(None)
    st = env.stash()
    # what to remove is decided from the parsed items alone, not by a query
    have = []
    for k, op in enumerate(hist):
        verb, _, arg = OPS[op].partition(' ')
        if verb == 'add':
            have += st.AddFile(env.path(arg))
        elif verb == 'link':
            # added on behalf of another file
            have += st.AddFile(env.path(arg), forcedLink=env.path('foo_1.0.bb'))
        elif verb == 'append':
            have += preps[k] if isinstance(preps[k], list) else [preps[k]]
            st.Append(preps[k])
        elif verb == 'final':
            st.Finalize()
        else:
            got = [x for x in have if x.RealRaw.startswith(('A', 'SRC_URI', 'PACKAGES', 'inherit', '#', '\n'))]
            got = got[:1] if verb == 'remove' else got[-2:]
            if got:
                st.Remove(got[0] if len(got) == 1 else got)
                have = [x for x in have if not any(x is y for y in got)]
        warm(st, k)
    return st


def qs(env, st):
    return queries(st, [env.path(f) for f in ASK], ids, terms=('${A} ${B} ${PN}',), names=('foo-x', 'foo-d-y'))


def run(case, env):
    from mc.engine import Obs
    hist, plan = case
    for n, t in FILES.items():
        env.write(n, t)
    # every stash lives in a process of its own, in which nothing else was ever asked
    a1 = apart(lambda: {n: q() for n, q in qs(env, execute(env, hist, lambda s, k: None))})
    a2 = apart(lambda: {n: q() for n, q in reversed(qs(env, execute(env, hist, lambda s, k: None)))})
    for n in a1:
        same(f'{n}: asked first vs. asked last', a1[n], a2[n])
    cnt = apart(lambda: warmed(env, hist, plan, a1))
    return Obs(states=[tuple(hist[:k]) for k in range(1, len(hist) + 1)], transitions=cnt, outcome=repr(sorted(a1.items())))


def apart(fn):
    ok, res = fresh(fn)
    if not ok:
        raise Violation(res)
    return res


def warmed(env, hist, plan, a1):
    cnt = 2 * len(a1)
    if plan == 'all':
        def warm(st, k):
            for _, q in qs(env, st):
                q()
        st = execute(env, hist, warm)
        for n, q in qs(env, st):
            same(f'{n} after earlier queries', q(), a1[n])
            same(f'{n} asked again', q(), a1[n])
            cnt += 2 + len(hist)
    else:
        names = list(a1)
        for i, name in enumerate(names):
            env.clear_caches()

            def warm1(st, k, i=i):
                qs(env, st)[i][1]()
            st = execute(env, hist, warm1)
            same(f'{name} after being asked earlier', qs(env, st)[i][1](), a1[name])
            cnt += 1 + len(hist)
    return cnt
