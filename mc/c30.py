"""C30: appended items are found, removed items are gone, everything else stays."""
import itertools

from mc.lib import HUGE, LARGE, queries, same

ID = 'C30'
RULE = ('a case is a text of distinct statements in one of three files, and a way of editing; every non-empty sub-set of the statements is removed from the stash, or appended '
        'to one that lacks it; the reference is a stash whose file never had these statements (blank lines instead), or always had them: all queries agree, and the items '
        'found are the ones the sub-set says, the same objects')
ASSUMPTIONS = ['the edited statements neither include files nor change how the following ones are read (override style, blank lines after def)',
               'blank lines are not compared; appended items carry the line they were parsed with']

ST = [
    'A = "1"\n', 'A += "2"\n', 'A_append = " 3"\n', 'A ?= "4"\n', 'A_remove = "2"\n', 'unset A\n', 'B = "${A} b ${PN}"\n', 'PACKAGES += "p-${A}"\n',
    'SRC_URI += "git://h/x;name=n1"\n', 'IMAGE_INSTALL = "x"\n', 'inherit core-image packagegroup\n', 'PACKAGES_DYNAMIC = "^foo-x.*"\n', 'do_x() {\n    a\n}\n', '# comment\n',
    'A = "m \\\n    n"\n', 'A[doc] = "t"\n', 'PV = "9"\n', 'A ??= "w"\n',
]
PLACES = ['foo_1.0.bb', 'x.inc', 'foo_%.bbappend']
WHOLE = ['foo_1.0.bb', 'x.inc', 'foo_%.bbappend', 'bar_1.bb', 'bar_2.bbappend', 'lay.conf', 'classes/kk.bbclass']
WAYS = ['one call with a list', 'one by one', 'one call with a tuple', 'one call with a result list', 'one by one, last first', 'queries in between', 'finalized before and after', 'removed, appended, removed again', 'appended once more, removed once more']
BOUNDS = {
    'quick': f'all sequences of <= 2 distinct statements of {len(ST)} x {len(PLACES)} files (2 ways in the include and the bbappend) x {len(WAYS)} ways x all sub-sets x (remove, append); 3 statements of the first 9 in the recipe, one way; {len(WHOLE) - 3} files (with a second recipe, a bbappend on its own, a class and a conf file) that consist of the edited statements only; up to 600 items in one file',
    'thorough': f'all sequences of <= 3 distinct statements of {len(ST)} x {len(PLACES)} files x {len(WAYS)} ways x all sub-sets x (remove, append); all of 4 of the first 8, one way; {len(WHOLE) - 3} files of the edited statements only; up to 2049 items in one file',
}


def cases(tier):
    deep = tier == 'thorough'
    for n in ((1, 2, 3) if deep else (1, 2)):
        for seq in itertools.permutations(range(len(ST)), n):
            for pl in range(len(PLACES)):
                for way in range(len(WAYS)) if deep or n < 2 or not pl else (5, 7):
                    if deep or n < 2 or way in (0, 5) or (seq[0] < seq[1]) == (way % 2 == 0):
                        yield [list(seq), pl, way]
    for w in range(3, len(WHOLE)):
        for seq in [*itertools.permutations(range(len(ST)), 1), *itertools.permutations(range(0, len(ST), 1 if deep else 4), 2)]:
            for way in range(len(WAYS)) if deep or len(seq) < 2 else (0, 5):
                yield [list(seq), len(PLACES) + w, way]
    for k in (HUGE if deep else LARGE):
        for way in ((0, 1, 4) if deep or k < 100 else (k % 2,)):
            yield [[k], -1, way]
    if not deep:
        for seq in itertools.permutations(range(9), 3):
            if seq[0] < seq[1]:
                yield [list(seq), 0, (seq[0] + seq[1] + seq[2]) % 2]
    else:
        for seq in itertools.permutations(range(8), 4):
            yield [list(seq), 0, (seq[0] + seq[1] + seq[2]) % 2]


def render(case):
    if case[1] < 0:
        return f'{case[0][0]} items, {WAYS[case[2]]}'
    return f'{(PLACES + WHOLE)[case[1]]}, {WAYS[case[2]]}:\n' + ''.join(ST[i] for i in case[0])


def real(items):
    return [x for x in items if x.RealRaw.strip()]


def ids(items):
    return [(x.RealRaw, x.Origin, x.Line, x.InFileLine, sorted(x.IncludedFrom)) for x in real(items)]


def view(env, st, n=2):
    fs = [env.path(f) for f in ([*PLACES[:n], *WHOLE[3:5]] if env.whole else PLACES[:n])]
    mine = (lambda x: sorted(ids(x), key=lambda y: (y[2], y[1]))) if env.whole else ids  # items of other files on the same line come in any order
    return {n: q() for n, q in queries(st, fs, mine, terms=('${A} ${B} ${PV}',), names=('foo-x-y',)) if n != 'expand()' or not env.whole}


def build(env, place, lines, whole=False):
    """a stash of three files, one with the given statements"""
    env.whole = whole
    for p in WHOLE if whole else PLACES:
        if whole and p == place:
            env.write(p, ''.join(lines))
            continue
        pre = {'x.inc': 'XX = "1"\n'}.get(p) if whole else None
        pre = pre or {'foo_1.0.bb': 'require x.inc\nBASE = "1"\n', 'x.inc': 'A = "0 2"\n', 'foo_%.bbappend': 'APP = "1"\n'}.get(p, 'EE = "1"\n')
        env.write(p, pre + (''.join(lines) if p == place else '') + ('POST = "1"\n' if p == place else ''))
    st = env.stash()
    for p in ('foo_1.0.bb', 'foo_%.bbappend', *WHOLE[3:]) if whole else ('foo_1.0.bb', 'foo_%.bbappend'):
        st.AddFile(env.path(p))
    return st


def empty(t):
    return ''


def blank(t):
    return '\n' * t.count('\n')


def edit(env, st, op, items, way):
    """apply the edit to the stash in one of the ways"""
    f = getattr(st, op)
    if way in (0, 6):
        f(list(items))
    elif way == 1:
        for x in items:
            f(x)
    elif way == 2:
        f(tuple(items))
    elif way == 3:
        f(env.Stash.StashList(st, items))
    elif way == 4:
        for x in reversed(items):
            f(x)
    elif way == 5:
        view(env, st, 1)
        for x in items:
            f(x)
            view(env, st, 1)
    elif way == 7:
        f(list(items))
        view(env, st, 1)
        getattr(st, 'Append' if op == 'Remove' else 'Remove')(list(items))
        view(env, st, 1)
        f(list(items))
    elif way == 8:
        # held twice, taken away once
        if op == 'Remove':
            st.Append(list(items))
            f(list(items))
        else:
            f(list(items))
            st.Append(list(items))
            view(env, st, 1)
            st.Remove(list(items))
            return
        view(env, st, 1)
        f(list(items))


REF = {}
EARLY = (0, 5, 7)


def crowd(k, way, env):
    """every third of k items, and all of them, are taken away and put back"""
    from mc.engine import Obs
    p = env.write('foo_1.0.bb', ''.join(f'V{i % 7} += "{i}"\n' for i in range(k)))
    n = 0
    for keep in (3, 0):
        st = env.stash()
        all_ = list(st.AddFile(p))
        st.Finalize()
        mine = [x for i, x in enumerate(all_) if not keep or i % keep]
        left = [x for i, x in enumerate(all_) if keep and not i % keep]
        for op, want in (('Remove', left), ('Append', all_)):
            edit(env, st, op, mine, way)
            got = st.GetItemsFor(filename=p)
            same(f'items of {k} after {op}', [id(x) for x in got], [id(x) for x in want])
            st.Finalize()
            same(f'items of {k} after {op} and finalize', [id(x) for x in st.GetItemsFor(filename=p)], [id(x) for x in want])
            same(f'all items of {k} after {op}', [id(x) for x in st.GetItemsFor()], [id(x) for x in want])
            exp = st.ExpandVar(filename=p)
            for j in range(7):
                same(f'value of V{j} of {k} after {op}', exp.get(f'V{j}', []), [x.VarValueStripped for x in want if x.VarName == f'V{j}'])
            n += 10
    return Obs(states=[('crowd', k, way)], transitions=n, outcome=('crowd', k))


def run(case, env):
    from mc.engine import Obs
    seq, pl, way = case
    if pl < 0:
        return crowd(seq[0], way, env)
    whole = pl >= len(PLACES)
    place = (PLACES + WHOLE)[pl]
    texts = [ST[i] for i in seq]
    n, outs = 0, []
    for op in ('Remove', 'Append'):
        for k in range(1, len(seq) + 1):
            for sub in itertools.combinations(range(len(seq)), k):
                if len(seq) == 2 and k == 1 and way not in (0, 5) and sub[0] != way % 2:
                    continue
                gone = empty if whole and k == len(seq) else blank
                without = [gone(t) if i in sub else t for i, t in enumerate(texts)]
                if op == 'Remove':
                    st = build(env, place, texts, whole)
                    mine = [next(x for x in st.GetItemsFor(filename=env.path(place), nolink=True) if x.RealRaw == texts[i]) for i in sub]
                    want = without
                else:
                    donor = build(env, place, texts, whole)
                    mine = [next(x for x in donor.GetItemsFor(filename=env.path(place), nolink=True) if x.RealRaw == texts[i]) for i in sub]
                    if way == 6:
                        donor.Finalize()
                    env.clear_caches()
                    st = build(env, place, without, whole)
                    want = texts
                before = real(st.GetItemsFor())
                if way == 6:
                    st.Finalize()
                edit(env, st, op, mine, way)
                after = real(st.GetItemsFor())
                keep = [x for x in before if not any(x is y for y in mine)]
                same(f'{op} {sub}: number of items', len(after), len(keep) + (len(mine) if op == 'Append' else 0))
                same(f'{op} {sub}: untouched items', sorted(map(id, keep)), sorted(id(x) for x in after if not any(x is y for y in mine)))
                early = view(env, st) if way in EARLY else None
                st.Finalize()
                got = view(env, st)
                env.clear_caches()
                key = (env.root, whole, place, tuple(want))
                if key not in REF:
                    if len(REF) > 20000:
                        REF.clear()
                    ref = build(env, place, want, whole)
                    asis = view(env, ref)
                    ref.Finalize()
                    REF[key] = (asis, view(env, ref))
                asis, exp = REF[key]
                if way in EARLY and way != 6:
                    for q in asis:
                        same(f'{q} right after {op} of {[texts[i] for i in sub]}', early[q], asis[q])
                    n += len(asis)
                for q in exp:
                    same(f'{q} after {op} of {[texts[i] for i in sub]}', got[q], exp[q])
                env.clear_caches()
                n += len(exp) + len(mine) + 2
                outs.append(repr(got.get('expand()')))
    return Obs(states=[(place, o) for o in outs], transitions=n, outcome=(place, outs))
