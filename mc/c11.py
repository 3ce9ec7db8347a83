"""C11: link closure after finalizing."""
import itertools
import os

from mc.lib import check, same

ID = 'C11'
RULE = ('a case is a directed graph (who includes/inherits whom) over a recipe, two or three include files, a class, a second recipe and a '
        'bbappend, cyclic graphs included, with an order of adding and finalizing; the reference is reachability over the graph; every '
        'file is queried.  One documented deviation exists (finding C11-F1): the closure is computed in one pass, so that some files '
        'reachable over three or more links are missing; the exact result of that pass is computed by a model of it, and the '
        'result must lie between the two')
ASSUMPTIONS = ['every file has at least one item', 'an item counts as included from its own file, too',
               'the model of the one-pass closure (finding C11-F1) is part of the accepted behaviour']

NAME = {'r': 'foo_1.0.bb', 's': 'bar_1.0.bb', 'a': 'a.inc', 'b': 'b.inc', 'c': 'c.inc', 'k': 'classes/k.bbclass', 'p': 'foo_%.bbappend',
        'q': 'foo_1.0.bbappend'}
SUBSETS = {3: [[], ['a'], ['b'], ['k'], ['a', 'b'], ['a', 'k'], ['b', 'k'], ['a', 'b', 'k'], ['b', 'a'], ['k', 'a'], ['k', 'b', 'a']]}
S3 = SUBSETS[3][:8]
EXTRA = [[], ['a'], ['k'], ['b', 'a']]
# what is added, F = finalize
PLANS = [['r', 'F'], ['r', 'F', 'F'], ['a', 'r', 'F'], ['r', 'F', 'r', 'F'], ['r', 'k', 'b', 'F']]
PLANS_S = [['r', 's', 'F'], ['s', 'r', 'F'], ['r', 'F', 's', 'F']]
PLANS_P = [['r', 'p', 'F'], ['p', 'r', 'F'], ['r', 'F', 'p', 'F'], ['p', 'q', 's', 'r', 'F']]
BOUNDS = {
    'quick': f'all graphs with {len(SUBSETS[3])} ordered successor lists for the recipe and all 8 for each of 2 includes and a class, x {len(PLANS)} orders '
             'of adding/finalizing; all 4096 graphs x 4 successor lists of a second recipe or a bbappend x 3 orders; 1..24 recipes that share 2..4 includes; a recipe with up to 65 includes or classes with an include or class each',
    'thorough': f'all graphs with {len(SUBSETS[3])} ordered successor lists for every node, with all orders and second recipes/bbappends; all graphs over '
                'recipe, 3 includes, class with <= 2 successors each',
}


def cases(tier):
    deep = tier == 'thorough'
    lists = SUBSETS[3] if deep else S3
    for n in range(1, 41 if deep else 25):
        for m in range(1, 4):
            for order in (0, 1):
                yield ['crowd', n, m, order]
    for n in [*range(1, 25), 33, 40, 65] + ([100, 129, 257] if deep else []):
        for shape in range(3):
            yield ['wide', n, shape]
    for r in SUBSETS[3]:
        for a, b, k in itertools.product(lists, repeat=3):
            for plan in (PLANS if deep else PLANS[:1] + PLANS[2:3] + PLANS[3:4]) if len(r) < 3 or deep else PLANS[:2]:
                yield [{'r': r, 'a': a, 'b': b, 'k': k}, plan]
    for r in S3:
        for a, b, k in itertools.product(S3, repeat=3):
            if not deep and len(a) + len(b) + len(k) > 6:
                continue
            for e in EXTRA:
                g = {'r': r, 'a': a, 'b': b, 'k': k}
                for plan in PLANS_S if deep else PLANS_S[:1]:
                    yield [{**g, 's': e}, plan]
                for plan in PLANS_P if deep else PLANS_P[:2]:
                    yield [{**g, 'p': e, 's': ['a'], 'q': ['b']}, plan]
    if deep:
        opts = [list(x) for n in range(3) for x in itertools.combinations('abck', n)]
        for r, a, b, c, k in itertools.product(opts, repeat=5):
            yield [{'r': r, 'a': a, 'b': b, 'c': c, 'k': k}, PLANS[0]]


def crowd(case, env):
    """many files reach the same item"""
    from mc.engine import Obs
    _, n, m, order = case
    env.write('conf/layer.conf', '')
    files = {'y.inc': ''.join(f'require z{i}.inc\n' for i in range(m))}
    for i in range(m):
        files[f'z{i}.inc'] = 'Z = "1"\n'
    tops = [f'r{i}_1.0.{"bb" if i % 3 else "bbappend"}' for i in range(n)]
    for t in tops:
        files[t] = 'T = "1"\nrequire y.inc\n'
    for f, t in files.items():
        env.write(f, t)
    st = env.stash()
    for t in tops[::-1] if order else tops:
        st.AddFile(env.path(t))
    st.Finalize()
    subs = {f'z{i}.inc' for i in range(m)}
    for t in tops:
        same(f'files {t} sees', {x.Origin for x in st.GetItemsFor(filename=env.path(t))}, {env.path(f) for f in {t, 'y.inc', *subs}})
    for x in st.GetItemsFor():
        f = os.path.basename(x.Origin)
        same(f'IncludedFrom of an item of {f}', {os.path.basename(y) for y in x.IncludedFrom}, {f} if f in tops else {f, 'y.inc', *tops})
    return Obs(states=[(n, m)], transitions=n + 2, outcome=(n, m, order))


def wide(case, env):
    """one file pulls in many, each of which pulls in another one"""
    from mc.engine import Obs
    _, n, shape = case
    env.write('conf/layer.conf', '')
    mid = [f'y{i}.inc' if shape < 2 or i % 2 else f'classes/y{i}.bbclass' for i in range(n)]
    end = [f'z{i}.inc' if shape < 1 or i % 3 else f'classes/z{i}.bbclass' for i in range(n)]

    def pull(f):
        return f'inherit {f[8:-8]}\n' if f.endswith('.bbclass') else f'require {f}\n'
    for i in range(n):
        env.write(mid[i], f'Y{i} = "1"\n' + pull(end[i]))
        env.write(end[i], f'Z{i} = "1"\n')
    p = env.write('foo_1.0.bb', 'T = "1"\n' + ''.join(map(pull, mid)))
    q = env.write('foo_%.bbappend', 'Q = "1"\n')
    st = env.stash()
    st.AddFile(p)
    st.AddFile(q)
    st.Finalize()
    root = env.root + '/'
    same('files the recipe sees', sorted({x.Origin.replace(root, '') for x in st.GetItemsFor(filename=p)}), sorted(['foo_1.0.bb', 'foo_%.bbappend', *mid, *end]))
    same('links of the recipe', [x.replace(root, '') for x in st.GetLinksForFile(p)], sorted(['foo_%.bbappend', *mid, *end]))
    for i in range(n):
        same(f'files {mid[i]} sees', sorted({x.Origin.replace(root, '') for x in st.GetItemsFor(filename=env.path(mid[i]))}), sorted([mid[i], end[i]]))
    for x in st.GetItemsFor():
        f = x.Origin.replace(root, '')
        want = {f, 'foo_1.0.bb'} | ({mid[end.index(f)]} if f in end else set())
        same(f'IncludedFrom of an item of {f}', sorted(y.replace(root, '') for y in x.IncludedFrom), sorted(want))
    return Obs(states=[(n, shape)], transitions=n + 2, outcome=(n, shape))


def text(n, succ):
    t = f'X_{n.upper()} = "1"\n'
    for i, s in enumerate(succ):
        t += f'inherit {s}\n' if s == 'k' else f'{"require" if i % 2 else "include"} {s}.inc\n'
        t += f'Y_{n.upper()}{i} = "1"\n'
    return t


def render(case):
    if case[0] == 'wide':
        return f'a recipe pulls in {case[1]} files, each of which pulls in another one, shape {case[2]}'
    if case[0] == 'crowd':
        return f'{case[1]} recipes and bbappends include y.inc, which includes {case[2]} files, order {case[3]}'
    g, plan = case
    return '\n'.join(f'--- {NAME[n]}\n{text(n, s)}' for n, s in g.items() if n in plan or n in 'abck') + f'\nplan: {[NAME.get(x, x) for x in plan]}'


APPENDS = {'p': 'r', 'q': 'r'}


class Model:
    """what the link map contains after adding and after one-pass closures"""

    def __init__(self, g):
        self.g = g
        self.map = {}
        self.seen = set()
        self.parsed = set()
        self.edges = {}
        self.active = []

    def add(self, f, forced=None):
        if forced:
            self.edges.setdefault(forced, set()).add(f)
        if (f in 'pq' and f in self.seen) or (f == 'k' and f in self.seen) or f in self.active:
            if forced:
                self.map.setdefault(forced, []).append(f)
            return
        self.seen.add(f)
        self.active.append(f)
        for c in self.g[f]:
            self.add(c, f)
        self.active.pop()
        self.map.setdefault(f, [])
        if forced:
            self.map.setdefault(forced, []).append(f)
        for p, r in APPENDS.items():
            if f == p and r in self.map:
                self.map[r].append(p)
            if f == r and p in self.map:
                self.map[r].append(p)
        for p, r in APPENDS.items():
            if p in self.seen and r in self.seen:
                self.edges.setdefault(r, set()).add(p)

    def close(self):
        for k in self.map:
            for x in list(self.map[k]):
                self.map[k] += self.map.get(x, [])
            self.map[k].append(k)
            self.map[k] = list(dict.fromkeys(self.map[k]))

    def reach(self, k):
        res, todo = {k}, [k]
        while todo:
            for y in self.edges.get(todo.pop(), ()):
                if y not in res:
                    res.add(y)
                    todo.append(y)
        return res


def run(case, env):
    from mc.engine import Obs
    if case[0] == 'crowd':
        return crowd(case, env)
    if case[0] == 'wide':
        return wide(case, env)
    g, plan = case
    env.write('conf/layer.conf', '')
    for n in NAME:
        if n in g:
            env.write(NAME[n], text(n, g[n]))
    st = env.stash()
    m = Model(g)
    back = {env.path(v): k for k, v in NAME.items()}
    known = []
    outs = []
    n = 0
    for step in plan:
        n += 1
        if step != 'F':
            st.AddFile(env.path(NAME[step]))
            m.add(step)
            continue
        st.Finalize()
        m.close()
        got = {}
        for k in sorted(m.seen):
            items = st.GetItemsFor(filename=env.path(NAME[k]))
            origins = [back[x.Origin] for x in items]
            got[k] = set(origins)
            reach, least = m.reach(k), set(m.map[k]) | {k}
            n += 1
            check(got[k] <= reach, f'{NAME[k]} sees {sorted(got[k] - reach)}, which it does not reach')
            check(least <= got[k], f'{NAME[k]} does not see {sorted(least - got[k])}')
            if reach - got[k]:
                known.append(('C11-F1', f'{NAME[k]} does not see {sorted(NAME[x] for x in reach - got[k])}'))
            same(f'links of {NAME[k]}', [back[x] for x in st.GetLinksForFile(env.path(NAME[k]))],
                 [back[x] for x in sorted(env.path(NAME[y]) for y in got[k] - {k})])
            # all items of a visible file are visible
            allof = sum(1 for x in st.GetItemsFor() if back[x.Origin] in got[k])
            same(f'number of items {NAME[k]} sees', len(items), allof)
            same(f'own items of {NAME[k]}', {back[x.Origin] for x in st.GetItemsFor(filename=env.path(NAME[k]), nolink=True)}, {k})
        for x in st.GetItemsFor():
            f = back[x.Origin]
            same(f'IncludedFrom of an item of {NAME[f]}', {back[y] for y in x.IncludedFrom}, {k for k in got if f in got[k]})
        outs.append(tuple((k, tuple(sorted(v))) for k, v in sorted(got.items())))
    return Obs(states=outs, transitions=n, outcome=(tuple(plan), tuple(outs)), known=known)
