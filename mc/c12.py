"""C12: which recipes a bbappend applies to."""
import itertools
import os

from mc.lib import CLASSES, LARGE, SIZES, base, same

ID = 'C12'
RULE = ('a case is a set of recipes and bbappends and a permutation in which they are added; the reference matches the names character by '
        'character with "%" as the only wildcard; observed are the links of every recipe before and after finalizing, the items seen for '
        'it and the list of lone bbappends')
ASSUMPTIONS = ['"%" stands at the end of a bbappend name, as the build system demands']

RECIPES = ['foo_1.0.bb', 'foo_1.0.1.bb', 'foo_1x0.bb', 'foo.bb', 'foo-bar_1.0.bb', 'gtk+_3.bb', 'gtkk_3.bb', 'foo_git.bb', 'xfoo_1.0.bb',
           'foo_1.0_2.bb', 'sub/foo_1.0.bb', 'foo_.bb', 'bar_1.0.bb']
APPENDS = ['foo_1.0.bbappend', 'foo_%.bbappend', 'foo_1.%.bbappend', 'foo%.bbappend', 'foo.bbappend', 'gtk+_%.bbappend', 'gtk+_3.bbappend',
           'foo_1.0.1.bbappend', '%.bbappend', 'foo-bar_%.bbappend', 'app/foo_%.bbappend', 'foo_1.0%.bbappend', 'bar_2.%.bbappend', 'oo_1.0.bbappend',
           'f.o_1.0.bbappend']
BOUNDS = {
    'quick': f'every pair of {len(RECIPES)} recipes and {len(APPENDS)} bbappends in both orders; all sets of two recipes and two bbappends of the '
             'first 8/8 in all interleavings of a sub-set, of three recipes and one bbappend in 4 orders; adding again and finalizing twice; up to 129 bbappends of a recipe and recipes of a bbappend, empty recipes, recipes of a comment or an include alone, versions of up to 101 parts',
    'thorough': f'all sets of <= 2 recipes and <= 2 bbappends over {len(RECIPES)} x {len(APPENDS)} names in all 24 orders, 3 recipes with one bbappend and '
                'one recipe with 3 bbappends in all 24 orders',
}


def cases(tier):
    deep = tier == 'thorough'
    for a in APPENDS:
        yield [[a], 3]
        yield [[a], 4]
    for r in RECIPES:
        yield [[r], 0]
        for a in APPENDS:
            for o in ([r, a], [a, r]):
                yield [o, 0]
                yield [o, 1]
                yield [o, 2]
                yield [o, 3]
                yield [o, 4]
    for a in itertools.combinations(APPENDS, 2):
        yield [list(a), 0]
        for r in RECIPES:
            for o in itertools.permutations([r, *a]):
                yield [list(o), 0]
    for rs in itertools.combinations(RECIPES, 2):
        for a in APPENDS:
            for o in itertools.permutations([*rs, a]):
                yield [list(o), 0]
    # recipes without content, with nothing but a comment, with everything in an include file
    for k in (1, 2, 3):
        for r in RECIPES:
            yield [[r], 0, k]
            for a in APPENDS:
                for o in ([r, a], [a, r]):
                    yield [o, 0, k]
                    yield [o, 2, k]
        for rs in itertools.combinations(RECIPES[:7], 2):
            for a in APPENDS[:7]:
                for o in itertools.permutations([*rs, a]):
                    yield [list(o), 0, k]
    # well-known names
    for n in CLASSES:
        yield [[f'{n}_1.0.bb', f'{n}_%.bbappend', f'{n}.bbappend', f'{n}-x_1.0.bb', f'{n}%.bbappend', f'x{n}_1.0.bb'], 0]
        yield [[f'{n}.bbappend', f'a/{n}_1.0.bbappend', f'{n}_git.bb', f'{n}.bb', f'a/{n}_1.0.bb', f'{n}_1.0%.bbappend'], 1]
        yield [[f'foo_%.bbappend', f'foo_{n}.bb', f'foo_{n}.bbappend', f'{n}_{n}.bb', f'{n}_{n}%.bbappend'], 0]
    # many of a kind, long names
    for k in (LARGE[:50] if deep else SIZES):
        r, a = [f'l{i}/foo_1.{i}.bb' for i in range(k)], [f'm{i}/foo_%.bbappend' for i in range(k)]
        x = [f'n{i}/foo_1.{i}.bbappend' for i in range(k)]
        yield [['foo_1.0.bb', *a], 0]
        yield [[*a, 'foo_1.0.bb'], 0]
        yield [[*r, 'foo_%.bbappend'], 0]
        yield [['foo_1.%.bbappend', *r], 0]
        if k < 40 or deep and k < 101:
            yield [[*r, *x], 0]
            yield [[*x, *r[::-1]], 2 if k < 10 else 0]
            yield [[*x, *a, *r[:2]], 0]
        v = '1.' * k
        for e in ('', '0', '%', '0%', '00', '1') if k < 110 else ():
            yield [[f'foo_{v}0.bb', f'foo_{v}{e}.bbappend', f'x/foo_{v[:-2]}0.bb'], 0]
    nr, na = (len(RECIPES), len(APPENDS)) if deep else (7, 7)
    for rs in itertools.combinations(RECIPES[:nr], 2):
        for ap in itertools.combinations(APPENDS[:na], 2):
            for i, o in enumerate(itertools.permutations([*rs, *ap])):
                if deep or i % 3 == 0:
                    yield [list(o), 0]
    if deep:
        for rs in itertools.combinations(RECIPES, 3):
            for a in APPENDS:
                for o in itertools.permutations([*rs, a]):
                    yield [list(o), 0]
        for r in RECIPES:
            for ap in itertools.combinations(APPENDS, 3):
                for o in itertools.permutations([r, *ap]):
                    yield [list(o), 0]


def render(case):
    return f'added in this order: {case[0]}; ' + ['finalized once', 'finalized twice', 'finalized after every file', 'included by a configuration file', 'included by an include file added first'][case[1]] + ['', ', empty recipes', ', recipes of a comment', ', recipes of an include'][case[2] if len(case) > 2 else 0]


def applies(append, recipe):
    """character by character, '%' matches the rest"""
    a, r = base(append)[:-len('.bbappend')], base(recipe)[:-len('.bb')]
    for i, ch in enumerate(a):
        if ch == '%':
            return True
        if i >= len(r) or r[i] != ch:
            return False
    return len(a) == len(r)


def run(case, env):
    from mc.engine import Obs
    order, mode, *kind = case
    kind = kind[0] if kind else 0
    for f in order:
        env.write(f, [f'A = "{f}"\nB = "1"\n', '', '# c\n', f'require {os.path.basename(f)}.inc\n'][kind if f.endswith('.bb') else 0])
        if kind == 3:
            env.write(f + '.inc', 'A = "1"\n')
    own = [2, 0, 1, 1][kind]
    other = env.write({3: 'zz.conf', 4: 'zz.inc'}.get(mode, 'zz.txt'), ''.join(f'require {f}\n' for f in order if f.endswith('.bbappend')))
    st = env.stash()
    if mode == 4:
        st.AddFile(other)
    for f in order:
        st.AddFile(env.path(f))
        if mode == 2:
            st.Finalize()
    if mode == 3:
        st.AddFile(other)
    recipes = [f for f in order if f.endswith('.bb')]
    appends = [f for f in order if f.endswith('.bbappend')]
    n = 0
    out = []
    for fin in range(3 if mode == 1 else 2):
        for r in recipes:
            want = sorted(env.path(a) for a in appends if applies(a, r))
            inc = [env.path(r) + '.inc'] if kind == 3 else []
            same(f'links of {r}', st.GetLinksForFile(env.path(r)), sorted(want + inc))
            same(f'origins seen by {r}', sorted({x.Origin for x in st.GetItemsFor(filename=env.path(r))}), sorted(want + inc + ([env.path(r)] if own else [])))
            same(f'items seen by {r}', len(st.GetItemsFor(filename=env.path(r))), own + len(inc) + 2 * len(want))
            out.append((r, tuple(map(base, want))))
            n += 3
        for a in appends:
            same(f'origins seen by {a}', sorted({x.Origin for x in st.GetItemsFor(filename=env.path(a))}), [env.path(a)])
            for x in st.GetItemsFor(filename=env.path(a)):
                same(f'append item of {a}', x.IsFromAppend(), True)
        same('lone bbappends', st.GetLoneAppends(), sorted(env.path(a) for a in appends if not any(applies(a, r) for r in recipes)))
        same('recipes', st.GetRecipes(), sorted(env.path(r) for r in recipes))
        n += 2
        st.Finalize()
    return Obs(states=[tuple(sorted(order[:k])) for k in range(1, len(order) + 1)], transitions=n + len(order), outcome=tuple(sorted(out)))
