"""C23: independence of stashes and of unrelated recipes."""
import itertools

from mc.engine import fresh
from mc.lib import check, queries, same, snap

ID = 'C23'
RULE = ('a case is a pair of scripts for two stashes and one of all interleavings of their steps, where every answer of each stash must be the one the script gives when it '
        'runs alone; or a set of unrelated files with the positions at which they are added around the files of one recipe, where everything about that recipe must be as without them')
ASSUMPTIONS = ['known distros and machines are global constants and not answers of a stash', 'unrelated files share no included file, class or name pattern']

FILES = {
    'conf/layer.conf': '',
    'foo_1.0.bb': 'require foo.inc\ninherit k\nA = "1 ${B}"\nA:append = " ${@bb.utils.contains(\'a\', \'b\', \'yes\', \'no\', d)}"\nPACKAGES =+ "${PN}-x"\nPACKAGES_DYNAMIC = "^foo-x"\nSRC_URI = "git://a;name=n"\n'
                  'do_x() {\n    a\n}\nFOO_bar = "1"\n',
    'foo.inc': 'B = "2"\nB_append = "x"\nC:remove = "c"\nC = "a b c"\n',
    'classes/k.bbclass': 'K = "1"\ninherit l\nA ?= "k"\n',
    'classes/l.bbclass': 'L = "1"\n',
    'foo_%.bbappend': 'A += "app"\nrequire bar.inc\n',
    'bar_2.0.bb': 'require foo.inc\nrequire bar.inc\nA = "bar"\ninherit l image\n',
    'bar.inc': 'D_append = "q"\nA += "inc"\n',
    'x.conf': 'A = "conf"\nFOO_bar = "2"\n',
}
# steps: add FILE, query, finalize, remove N, append FILE
SCRIPTS = [
    ['add foo_1.0.bb', 'query', 'add foo_%.bbappend', 'finalize'],
    ['add bar_2.0.bb', 'finalize', 'query', 'remove 1'],
    ['add foo_%.bbappend', 'add foo_1.0.bb', 'finalize', 'query'],
    ['add x.conf', 'append bar.inc', 'query', 'remove 0'],
    ['query', 'add foo.inc', 'query', 'add bar.inc'],
    ['add foo_1.0.bb', 'remove 2', 'add bar_2.0.bb', 'finalize'],
]
OPTS = [(False, False), (True, False), (False, True), (True, True)]
UNREL = {
    'other_1.bb': 'A = "other"\nB = "other"\nrequire o.inc\n',
    'sub/foox_1.0.bb': 'A:append = "z"\nA:remove = "1"\nPACKAGES = "zz"\nPACKAGES_DYNAMIC = ".*"\n',
    'app/other_%.bbappend': 'A = "otherapp"\nunset A\n',
    'o2.bb': 'require cyc1.inc\ninherit oc\n',
    'conf/some.conf': 'A = "conf"\nB = "conf"\nSRC_URI = "git://z;name=zz"\n',
    'lone_%.bbappend': 'A = "lone"\n',
    'xfoo_1.0.bb': 'A_append = "old"\nB:append = "new"\ndo_x() {\n    b\n}\n# c\n# d\n',
    'big.inc': 'A = "x"\n' * 30,
}
UNREL_EXTRA = {'o.inc': 'A = "o"\n', 'cyc1.inc': 'require cyc2.inc\nA = "cyc"\n', 'cyc2.inc': 'require cyc1.inc\nB = "cyc"\n', 'classes/oc.bbclass': 'A = "oc"\n'}
MINE = [['foo_1.0.bb'], ['foo_1.0.bb', 'foo_%.bbappend'], ['foo_%.bbappend', 'foo_1.0.bb']]
BOUNDS = {
    'quick': f'all unordered pairs of {len(SCRIPTS)} scripts with different options x all interleavings (70 each); all sequences of <= 2 of {len(UNREL)} unrelated files at all positions around '
             f'{len(MINE)} recipe additions, finalized at the end or after every step',
    'thorough': 'as quick with ordered pairs, all pairs of options and <= 3 unrelated files',
}


def cases(tier):
    deep = tier == 'thorough'
    for a, b in itertools.product(range(len(SCRIPTS)), repeat=2):
        for oa in range(len(OPTS)) if deep else (0,):
            for ob in range(len(OPTS)) if deep else ((a + b) % 3 + 1,) if a <= b else ():
                yield ['two', a, b, oa, ob]
    for m in range(len(MINE)):
        for fin in range(2):
            for k in range(4 if deep else 3):
                for us in itertools.permutations(range(len(UNREL)), k):
                    n = len(MINE[m]) + 1
                    for pos in itertools.combinations_with_replacement(range(n), k):
                        yield ['unrel', m, fin, list(us), list(pos)]


def render(case):
    if case[0] == 'two':
        return f'scripts {SCRIPTS[case[1]]} with {OPTS[case[3]]} and {SCRIPTS[case[2]]} with {OPTS[case[4]]}'
    return f'{MINE[case[1]]} with {[list(UNREL)[u] for u in case[3]]} at {case[4]}, finalize {"each" if case[2] else "end"}'


def ids(items):
    return [(x.RealRaw, x.Origin, x.Line) for x in items]


def answers(st, env):
    res = [(n, q()) for n, q in queries(st, [env.path('foo_1.0.bb'), env.path('bar_2.0.bb')], ids)]
    res.append(('fingerprint', st.FingerPrint))
    for x in st.GetItemsFor():
        res.append((f'item {x.RealRaw!r}', snap(x)))
    return res


class Runner:
    def __init__(self, env, opts):
        self.env = env
        self.st = env.stash(new_style_override_syntax=opts[0], negative_inline=opts[1])
        self.got = []
        self.helper = opts

    def step(self, op, observe):
        verb, _, arg = op.partition(' ')
        if verb == 'add':
            self.st.AddFile(self.env.path(arg))
        elif verb == 'finalize':
            self.st.Finalize()
        elif verb == 'remove':
            items = self.st.GetItemsFor()
            if len(items) > int(arg):
                self.st.Remove(items[int(arg)])
        elif verb == 'append':
            self.st.Append(self.env.stash().AddFile(self.env.path(arg)))
        if observe:
            self.got.append(answers(self.st, self.env))


_alone = {}


def solo(env, script, opts):
    r = Runner(env, OPTS[opts])
    for op in SCRIPTS[script]:
        r.step(op, op == 'query')
    r.got.append(answers(r.st, env))
    return r.got


def prepare(env):
    """every script alone, and every recipe alone, in a process where nothing else was done"""
    for n, t in {**FILES, **UNREL, **UNREL_EXTRA}.items():
        env.write(n, t)
    for s in range(len(SCRIPTS)):
        for o in range(len(OPTS)):
            _alone[s, o] = fresh(lambda: solo(env, s, o))  # noqa: B023
    for m in range(len(MINE)):
        for fin in range(2):
            _alone['unrel', m, fin] = fresh(lambda: play(env, m, fin, [], []))  # noqa: B023


def alone(key):
    ok, res = _alone[key]
    check(ok, f'alone: {res}')
    return res


def two(case, env):
    _, a, b, oa, ob = case
    refs = [alone((a, oa)), alone((b, ob))]
    la, lb = len(SCRIPTS[a]), len(SCRIPTS[b])
    states = set()
    n = 0
    for where in itertools.combinations(range(la + lb), la):
        rs = [Runner(env, OPTS[oa]), Runner(env, OPTS[ob])]
        at = [0, 0]
        for i in range(la + lb):
            who = 0 if i in where else 1
            op = SCRIPTS[(a, b)[who]][at[who]]
            rs[who].step(op, op == 'query')
            at[who] += 1
            states.add((a, b, tuple(at)))
            n += 1
        for who, other in ((0, 1), (1, 0)):
            rs[who].got.append(answers(rs[who].st, env))
            for k, (g, w) in enumerate(zip(rs[who].got, refs[who])):
                same(f'number of answers of stash {who}', len(g), len(w))
                for (n1, v1), (_, v2) in zip(g, w):
                    same(f'stash {who}, observation {k}, steps of the first stash at {where}: {n1}', v1, v2)
        env.clear_caches()
    return states, n


def about(st, env):
    """everything about the recipe"""
    out = []
    mine = [env.path(f) for f in ('foo_1.0.bb', 'foo.inc', 'foo_%.bbappend')]
    for f in mine:
        for n, q in queries(st, [f], ids):
            if f in n:
                out.append((n, q()))
        out.append((f, [snap(x) for x in st.GetItemsFor(filename=f)]))
    return out


def play(env, m, fin, us, pos):
    st = env.stash()
    names = list(UNREL)

    def add(f):
        st.AddFile(env.path(f))
        if fin:
            st.Finalize()
    for i in range(len(MINE[m]) + 1):
        for u, p in zip(us, pos):
            if p == i:
                add(names[u])
        if i < len(MINE[m]):
            add(MINE[m][i])
    before = about(st, env)
    st.Finalize()
    return before, about(st, env)


def run(case, env):
    from mc.engine import Obs
    for n, t in {**FILES, **UNREL, **UNREL_EXTRA}.items():
        env.write(n, t)
    if case[0] == 'two':
        states, n = two(case, env)
        return Obs(states=states, transitions=n, outcome=case)
    _, m, fin, us, pos = case
    got = play(env, m, fin, us, pos)
    for w, g in zip(alone(('unrel', m, fin)), got):
        for (n1, v1), (_, v2) in zip(g, w):
            same(n1, v1, v2)
    return Obs(states=[('unrel', m, tuple(sorted(us)))], transitions=len(us) + len(MINE[m]), outcome=case)
